//! What firmware does with the library, in a crate that has nothing but `core`.
#![no_std]

use embedded_hal::blocking::i2c;
use mlx9064x::{Error, Mlx90640Driver, Mlx90641Driver};

pub fn frame_640<I, E>(bus: I, image: &mut [f32]) -> Result<f32, Error<I>>
where
    I: i2c::WriteRead<Error = E> + i2c::Write<Error = E>,
    E: core::fmt::Debug,
{
    let mut driver = Mlx90640Driver::new(bus, 0x33)?;
    driver.generate_image_if_ready(image)?;
    Ok(driver.ambient_temperature().unwrap_or(0.0))
}

pub fn frame_641<I, E>(bus: I, image: &mut [f32]) -> Result<f32, Error<I>>
where
    I: i2c::WriteRead<Error = E> + i2c::Write<Error = E>,
    E: core::fmt::Debug,
{
    let mut driver = Mlx90641Driver::new(bus, 0x33)?;
    driver.generate_image_if_ready(image)?;
    Ok(driver.ambient_temperature().unwrap_or(0.0))
}
