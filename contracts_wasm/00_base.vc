%file lib.rs
%item
use crate::spec::*;
