//! Classification of types for the abstract domain.
use crate::lin::type_range;
use ir::*;

#[derive(Clone, Debug, PartialEq)]
pub enum TK {
    Int { lo: i128, hi: i128, bits: u16, signed: bool },
    Bool,
    /// represented by the discriminant value
    CEnum { lo: i128, hi: i128 },
    NonZero { lo: i128, hi: i128 },
    /// Option<NonZero>: 0 is None
    OptNonZero { lo: i128, hi: i128 },
    Struct,
    Enum,
    Tuple,
    Ref(TyId),
    /// owned sequence of scalars
    Seq { elem: TyId, w: u8, fixed: Option<u64>, cap: Option<u64> },
    /// owned sequence of other elements
    SeqT { elem: TyId, fixed: Option<u64> },
    Opaque,
    Fs,
    Zst,
    Unknown,
}

pub fn classify(p: &Program, ptr_bits: u16) -> Vec<TK> { (0..p.types.len()).map(|i| tk(p, i, ptr_bits)).collect() }

fn scalar_w(p: &Program, t: TyId) -> Option<u8> {
    match &p.types[t] { Ty::Int { bits, .. } => Some(if *bits == 8 { 1 } else { (*bits / 8) as u8 }), _ => None }
}

pub fn tk(p: &Program, t: TyId, ptr_bits: u16) -> TK {
    match &p.types[t] {
        Ty::Bool => TK::Bool,
        Ty::Char => TK::Int { lo: 0, hi: 0x10ffff, bits: 32, signed: false },
        Ty::Int { bits, signed, ptr } => { let b = if *ptr { ptr_bits } else { *bits }; let (lo, hi) = type_range(b, *signed); TK::Int { lo, hi, bits: b, signed: *signed } }
        Ty::Float => TK::Opaque,
        Ty::Never => TK::Unknown,
        Ty::Str => TK::Seq { elem: usize::MAX, w: 1, fixed: None, cap: None },
        Ty::Tuple(v) => if v.is_empty() { TK::Zst } else { TK::Tuple },
        Ty::Ref { to, .. } | Ty::Ptr { to, .. } => TK::Ref(*to),
        Ty::Array { elem, len } => match scalar_w(p, *elem) { Some(w) => TK::Seq { elem: *elem, w, fixed: Some(*len), cap: None }, None => TK::SeqT { elem: *elem, fixed: Some(*len) } },
        Ty::Slice(e) => match scalar_w(p, *e) { Some(w) => TK::Seq { elem: *e, w, fixed: None, cap: None }, None => TK::SeqT { elem: *e, fixed: None } },
        Ty::FnDef { .. } => TK::Zst,
        Ty::FnPtr | Ty::Dyn | Ty::Other(_) => TK::Opaque,
        Ty::Closure { upvars, .. } => if upvars.is_empty() { TK::Zst } else { TK::Tuple },
        Ty::Adt { path, krate, kind, args, variants, .. } => {
            if krate == "probe" { return if path == "Fs" || path == "probe::Fs" { TK::Fs } else { TK::Zst }; }
            match path.as_str() {
                "std::vec::Vec" | "std::boxed::Box" if path.ends_with("Vec") => {
                    return match scalar_w(p, args[0]) { Some(w) => TK::Seq { elem: args[0], w, fixed: None, cap: None }, None => TK::SeqT { elem: args[0], fixed: None } };
                }
                "arrayvec::arrayvec::ArrayVec" | "arrayvec::ArrayVec" => {
                    let cap = variants[0].fields.iter().find_map(|(_, t)| if let Ty::Array { len, .. } = &p.types[*t] { Some(*len) } else { None });
                    return match scalar_w(p, args[0]) { Some(w) => TK::Seq { elem: args[0], w, fixed: None, cap }, None => TK::SeqT { elem: args[0], fixed: None } };
                }
                "std::num::NonZero" => { if let TK::Int { hi, .. } = tk(p, args[0], ptr_bits) { return TK::NonZero { lo: 1, hi }; } }
                "std::option::Option" => { if let Ty::Adt { path, .. } = &p.types[args[0]] { if path == "std::num::NonZero" { if let TK::NonZero { hi, .. } = tk(p, args[0], ptr_bits) { return TK::OptNonZero { lo: 0, hi }; } } } }
                "std::marker::PhantomData" => return TK::Zst,
                "std::time::SystemTime" => return TK::Int { lo: -(1i128 << 63) * 1_000_000_000, hi: (1i128 << 63) * 1_000_000_000 - 1, bits: 127, signed: true },
                "std::time::Duration" => return TK::Int { lo: 0, hi: (1i128 << 64) * 1_000_000_000 - 1, bits: 127, signed: false },
                "time::offset_date_time::OffsetDateTime" | "time::OffsetDateTime" => return TK::Int { lo: crate::models::DT_MIN, hi: crate::models::DT_MAX, bits: 127, signed: true },
                "std::io::Error" | "std::string::String" | "std::borrow::Cow" => return TK::Opaque,
                x if x.starts_with("std::fmt::") || x.starts_with("core::fmt::") => return TK::Opaque,
                _ => {}
            }
            match kind {
                AdtKind::Union => TK::Unknown,
                AdtKind::Struct => if variants[0].fields.is_empty() { TK::Zst } else { TK::Struct },
                AdtKind::Enum => {
                    if variants.is_empty() { return TK::Unknown; }
                    if variants.iter().all(|v| v.fields.is_empty()) && variants.len() > 1 {
                        TK::CEnum { lo: variants.iter().map(|v| v.discr).min().unwrap(), hi: variants.iter().map(|v| v.discr).max().unwrap() }
                    } else { TK::Enum }
                }
            }
        }
    }
}
