//! Signature-only stand-in (never run).
use alloy::consensus::{EthereumTxEnvelope, EthereumTypedTransaction, TxEip4844, Header, EthereumReceipt, TxType};
use alloy::primitives::{Address, B256, U256};
use serde::{Serialize, Deserialize};
pub use alloy::consensus::transaction::Recovered;
pub type TransactionSigned = EthereumTxEnvelope<TxEip4844>;
pub type Transaction = EthereumTypedTransaction<TxEip4844>;
pub type PooledTransaction = EthereumTxEnvelope<alloy::consensus::TxEip4844WithSidecar>;
pub type Receipt = EthereumReceipt<TxType>;
pub type Block<T = TransactionSigned, H = Header> = alloy::consensus::Block<T, H>;
pub type BlockBody<T = TransactionSigned, H = Header> = alloy::consensus::BlockBody<T, H>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Account { pub nonce: u64, pub balance: U256, pub bytecode_hash: Option<B256> }
pub trait NodePrimitives: Send + Sync + Unpin + Clone + Default + std::fmt::Debug + PartialEq + Eq + 'static {}
#[derive(Clone, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EthPrimitives;
impl NodePrimitives for EthPrimitives {}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct SealedHeader<H = Header> { hash: B256, header: H }
impl<H> SealedHeader<H> {
    pub const fn new(header: H, hash: B256) -> Self { Self { header, hash } }
    pub fn hash(&self) -> B256 { self.hash }
    pub fn header(&self) -> &H { &self.header }
    pub fn into_header(self) -> H { self.header }
    pub fn unseal(self) -> H { self.header }
    pub fn seal_slow(_header: H) -> Self { unimplemented!() }
    pub fn split(self) -> (H, B256) { (self.header, self.hash) }
    pub fn num_hash(&self) -> alloy::eips::BlockNumHash { unimplemented!() }
}
impl<H> std::ops::Deref for SealedHeader<H> { type Target = H; fn deref(&self) -> &H { &self.header } }
impl<H> AsRef<H> for SealedHeader<H> { fn as_ref(&self) -> &H { &self.header } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SealedBlock<B = Block> { hash: B256, block: B }
impl SealedBlock<Block> {
    pub fn hash(&self) -> B256 { self.hash }
    pub fn header(&self) -> &Header { &self.block.header }
    pub fn body(&self) -> &BlockBody { &self.block.body }
    pub fn seal_slow(_b: Block) -> Self { unimplemented!() }
    pub fn sealed_header(&self) -> &SealedHeader { unimplemented!() }
    pub fn clone_sealed_header(&self) -> SealedHeader { unimplemented!() }
}
impl std::ops::Deref for SealedBlock<Block> { type Target = Header; fn deref(&self) -> &Header { &self.block.header } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RecoveredBlock<B = Block> { block: SealedBlock<B>, senders: Vec<Address> }
impl RecoveredBlock<Block> {
    pub fn hash(&self) -> B256 { unimplemented!() }
    pub fn senders(&self) -> &[Address] { &self.senders }
    pub fn sealed_block(&self) -> &SealedBlock { &self.block }
    pub fn sealed_header(&self) -> &SealedHeader { unimplemented!() }
    pub fn clone_sealed_header(&self) -> SealedHeader { unimplemented!() }
    pub fn body(&self) -> &BlockBody { unimplemented!() }
    pub fn header(&self) -> &Header { unimplemented!() }
}
impl std::ops::Deref for RecoveredBlock<Block> { type Target = SealedBlock<Block>; fn deref(&self) -> &SealedBlock<Block> { &self.block } }
