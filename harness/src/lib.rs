pub mod dict;
pub mod engine;
pub mod hooks;
pub mod io;
pub mod json;
pub mod mem;
pub mod model;
pub mod osmxml;
pub mod pbf;
pub mod props;
pub mod text;
pub mod time;
pub mod xmlp;
