//! Signature-only stand-in (never run).
use std::{marker::PhantomData, ops::{Bound, RangeBounds}, path::Path};
pub mod ffi { pub type MDBX_dbi = u32; }
use ffi::MDBX_dbi;
#[derive(Debug, Clone, Copy, PartialEq, Eq, thiserror::Error)]
pub enum Error { #[error("e")] Other(i32), #[error("nf")] NotFound }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Copy)] pub struct RO;
#[derive(Debug, Clone, Copy)] pub struct RW;
#[derive(Debug, Clone, Copy, Default)] pub struct DatabaseFlags(u32);
#[derive(Debug, Clone, Copy, Default)] pub struct WriteFlags(u32);
impl WriteFlags { pub const UPSERT: WriteFlags = WriteFlags(0); pub const APPEND: WriteFlags = WriteFlags(2); pub const NO_OVERWRITE: WriteFlags = WriteFlags(1); }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)] pub enum SyncMode { #[default] Durable, NoMetaSync, SafeNoSync, UtterlyNoSync }
impl std::str::FromStr for SyncMode { type Err = String; fn from_str(_: &str) -> std::result::Result<Self, String> { unimplemented!() } }
#[derive(Debug, Clone, Copy)] pub enum Mode { ReadOnly, ReadWrite { sync_mode: SyncMode } }
impl Default for Mode { fn default() -> Self { Mode::ReadOnly } }
#[derive(Debug, Clone, Copy, Default)] pub struct EnvironmentFlags { pub mode: Mode, pub no_sub_dir: bool, pub exclusive: bool, pub no_rdahead: bool, pub coalesce: bool }
#[derive(Debug, Clone, Copy)] pub enum PageSize { MinimalAcceptable, Set(usize) }
pub struct Geometry<R> { pub size: Option<R>, pub growth_step: Option<isize>, pub shrink_threshold: Option<isize>, pub page_size: Option<PageSize> }
#[derive(Debug, Clone)] pub struct Environment(());
pub struct EnvironmentBuilder(());
impl Environment {
    pub fn builder() -> EnvironmentBuilder { unimplemented!() }
    pub fn begin_rw_txn(&self) -> Result<Transaction<RW>> { unimplemented!() }
    pub fn begin_ro_txn(&self) -> Result<Transaction<RO>> { unimplemented!() }
    pub fn sync(&self, _force: bool) -> Result<bool> { unimplemented!() }
}
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _: usize) -> &mut Self { self }
    pub fn write_map(&mut self) -> &mut Self { self }
    pub fn set_geometry<R: RangeBounds<usize>>(&mut self, _: Geometry<R>) -> &mut Self { self }
    pub fn set_flags(&mut self, _: EnvironmentFlags) -> &mut Self { self }
    pub fn open(&self, _: &Path) -> Result<Environment> { unimplemented!() }
}
#[derive(Debug)] pub struct DatabaseH(u32);
impl DatabaseH { pub fn dbi(&self) -> MDBX_dbi { self.0 } }
#[derive(Debug)] pub struct Transaction<K>(PhantomData<K>);
pub trait TableObject: Sized {}
impl TableObject for Vec<u8> {}
impl<K> Transaction<K> {
    pub fn open_db(&self, _: Option<&str>) -> Result<DatabaseH> { unimplemented!() }
    pub fn cursor_with_dbi(&self, _: MDBX_dbi) -> Result<Cursor<K>> { unimplemented!() }
    pub fn get<V: TableObject>(&self, _: MDBX_dbi, _: &[u8]) -> Result<Option<V>> { unimplemented!() }
    pub fn commit(self) -> Result<(bool, ())> { unimplemented!() }
}
impl Transaction<RW> {
    pub fn create_db(&self, _: Option<&str>, _: DatabaseFlags) -> Result<DatabaseH> { unimplemented!() }
    pub fn put(&self, _: MDBX_dbi, _: impl AsRef<[u8]>, _: impl AsRef<[u8]>, _: WriteFlags) -> Result<()> { unimplemented!() }
    pub fn del(&self, _: MDBX_dbi, _: impl AsRef<[u8]>, _: Option<&[u8]>) -> Result<bool> { unimplemented!() }
    pub fn clear_db(&self, _: MDBX_dbi) -> Result<()> { unimplemented!() }
}
#[derive(Debug)] pub struct Cursor<K>(PhantomData<K>);
impl<K> Cursor<K> {
    pub fn next<A: TableObject, B: TableObject>(&mut self) -> Result<Option<(A, B)>> { unimplemented!() }
    pub fn prev<A: TableObject, B: TableObject>(&mut self) -> Result<Option<(A, B)>> { unimplemented!() }
    pub fn last<A: TableObject, B: TableObject>(&mut self) -> Result<Option<(A, B)>> { unimplemented!() }
    pub fn first<A: TableObject, B: TableObject>(&mut self) -> Result<Option<(A, B)>> { unimplemented!() }
}
#[allow(unused)] fn _b(_: Bound<u8>) {}
