//! Ordinary derived types, as users write them.
use serde::{Deserialize, Serialize};

#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Point { pub x: i32, pub y: i32 }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec<'a> { #[serde(borrow)] pub name: &'a str, pub id: u16, pub opt: Option<bool> }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Bin<'a> { #[serde(borrow, with = "serde_bytes")] pub data: &'a [u8], #[serde(default)] pub n: u8 }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Strict { pub a: u8, #[serde(default)] pub b: Option<u8> }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair(pub u8, pub bool);
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Wrap(pub u16);
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Nothing;
#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape { Dot, Circle(u16), Line(u8, u8), Box { w: u8, h: u8 } }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
#[cfg(feature = "alloc")]
pub enum Loose { N(u64), S(alloc::string::String), L(alloc::vec::Vec<u8>), M { a: u8 } }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t")]
#[cfg(feature = "alloc")]
pub enum Tagged { A { x: u8 }, B }
