//! The types under test: definitions with derive attributes, and their descriptors.
#![allow(non_snake_case, non_camel_case_types, unreachable_patterns, unused_variables, clippy::all)]

use crate::{leaf_model, model::*};
use crate::tracked::Tracked;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
use std::sync::OnceLock;

include!(env!("SX_TYPES"));
