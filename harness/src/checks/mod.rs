pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c21;
pub mod c20;
pub mod c22;
pub mod c23;
pub mod c10;
pub mod c11;
pub mod c18;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
