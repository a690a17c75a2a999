pub mod combo;
pub mod cover;
pub mod env;
pub mod explore;
pub mod model;
pub mod oracle;
pub mod report;
pub mod rt;
pub mod scen;
pub mod sweep;
pub mod around;
pub mod attack;
pub mod fix;
