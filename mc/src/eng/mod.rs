#[macro_use]
pub mod explore;
pub mod drive;
pub mod env;
pub mod fam;
pub mod fam2;
pub mod fam3;
pub mod fam4;
pub mod fam5;
pub mod fam6;
#[cfg(feature = "host")]
pub mod fam7;
pub mod fam8;
pub mod fam9;
pub mod fam10;
pub mod fam11;
pub mod fam12;
pub mod fam13;
pub mod fams;
pub mod lane;
pub mod refcards;
pub mod refdec;
pub mod tyb;
pub mod val;
