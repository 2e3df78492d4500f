//! Most-general client of the `ntfs` crate. Nothing in here is ever run: the bodies stand for
//! "anything may happen" and are replaced by the analyser's models (crate name `probe`).
use binrw::io::{Read, Result, Seek, SeekFrom};
use core::cmp::Ordering;
use ntfs::indexes::*;
use ntfs::types::NtfsPosition;

/// The opaque filesystem reader given by the user.
pub struct Fs;
impl Read for Fs {
    #[inline(never)]
    fn read(&mut self, _buf: &mut [u8]) -> Result<usize> { unimplemented!() }
}
impl Seek for Fs {
    #[inline(never)]
    fn seek(&mut self, _pos: SeekFrom) -> Result<u64> { unimplemented!() }
}

/// An index type as general as the index traits allow.
#[derive(Clone, Debug)]
pub struct AnyIndex;
#[derive(Debug)]
pub struct AnyKey;
#[derive(Debug)]
pub struct AnyData;
impl NtfsIndexEntryType for AnyIndex { type KeyType = AnyKey; }
impl NtfsIndexEntryHasFileReference for AnyIndex {}
impl NtfsIndexEntryHasData for AnyIndex { type DataType = AnyData; }
impl NtfsIndexEntryKey for AnyKey {
    #[inline(never)]
    fn key_from_slice(_slice: &[u8], _position: NtfsPosition) -> ntfs::Result<Self> { unimplemented!() }
}
impl NtfsIndexEntryData for AnyData {
    #[inline(never)]
    fn data_from_slice(_slice: &[u8], _position: NtfsPosition) -> ntfs::Result<Self> { unimplemented!() }
}

/// Candidates for the type parameters of the public API, read by the driver from this signature.
pub fn candidates(
    _: Fs, _: AnyIndex, _: NtfsFileNameIndex,
    _: fn(&AnyKey) -> Ordering, _: fn(&ntfs::structured_values::NtfsFileName) -> Ordering,
) {}
