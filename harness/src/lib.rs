pub mod fw;
pub mod expr;
pub mod model;
pub mod checks;
pub mod lp;
pub mod sol;
pub mod fake;
pub mod gate;
pub mod sys;
pub mod long;
pub mod wide;
pub mod widemodel;
