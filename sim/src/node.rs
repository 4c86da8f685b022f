//! The seam to the code under test: one implementation per build of the library.

use crate::coll::{CollObs, CollOp, SimBuild};
use crate::ops::{Op, Out};
use crate::plan::*;
use crate::seam::{SimDe, SimErr, SimIter, SimSer};
use crate::store::{ByteVals, Codec, Read, TextVals};
use crate::val::{Ty, W};
use std::fmt::{self, Formatter};
use std::io;

pub trait Eth: Sync {
    fn debug(&self) -> bool;
    fn fmt(&self, ty: Ty, v: W, tr: Tr, f: &mut Formatter) -> fmt::Result;
    fn ser(&self, ty: Ty, v: W, form: Form, s: SimSer) -> Result<u64, SimErr>;
    fn de(&self, ty: Ty, form: Form, d: SimDe) -> Result<W, SimErr>;
    fn fold(&self, ty: Ty, prod: bool, by_ref: bool, items: &[W], hint: u8, it: &mut SimIter) -> W;
    /// In place; returns the operand as it is afterwards.  On a panic the target
    /// is still written back, as the caller would find it.
    fn assign(&self, ty: Ty, op: AOp, rt: Rt, by_ref: bool, target: &mut W, rhs: &mut W) -> Result<(), Box<dyn std::any::Any + Send>>;
    fn binary(&self, ty: Ty, op: AOp, rt: Rt, var: u8, rev: bool, a: W, rhs: W) -> W;
    fn call(&self, ty: Ty, op: Op, a: W, b: W, n: u32) -> Out;
    fn parse(&self, ty: Ty, how: How, s: &str, radix: u32) -> Result<W, std::num::IntErrorKind>;
    /// Hashes of two values, under a hasher that separates write calls, and
    /// whether the values are equal.
    fn hash(&self, ty: Ty, a: W, b: W) -> (u64, u64, bool);
    fn text_out(&self, codec: Codec, v: &TextVals, w: &mut dyn io::Write) -> Result<(), String>;
    fn text_in(&self, codec: Codec, r: Read) -> Result<TextVals, String>;
    fn byte_out(&self, codec: Codec, v: &ByteVals, w: &mut dyn io::Write) -> Result<(), String>;
    fn byte_in(&self, codec: Codec, r: Read) -> Result<ByteVals, String>;
    /// One value through serde_json.
    fn pack(&self, ty: Ty, v: W, form: Form) -> Result<Vec<u8>, String>;
    fn unpack(&self, ty: Ty, b: &[u8], form: Form) -> Result<W, String>;
    fn coll(&self, ty: Ty, ops: &[CollOp], hasher: SimBuild, step: &mut dyn FnMut(usize, CollObs));
}

/// A value in one build's own types.
macro_rules! def_node {
    ($m:ident, $krate:ident) => {
        #[path = "."]
        pub mod $m {
            use $krate as e;
            include!("node_impl.rs");
        }
    };
}

def_node!(nr, ethnum);
def_node!(nd, ethnum_nd);
def_node!(lr, ethnum_lr);
def_node!(ld, ethnum_ld);

pub static ETHS: [&dyn Eth; 4] = [&nr::Node, &nd::Node, &lr::Node, &ld::Node];
