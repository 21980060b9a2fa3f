//! Signature-only stand-in (never run).
use alloy::genesis::Genesis;
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct ChainSpec { pub genesis: Genesis }
impl ChainSpec {
    pub fn genesis(&self) -> &Genesis { &self.genesis }
    pub fn genesis_hash(&self) -> alloy::primitives::B256 { unimplemented!() }
    pub fn sealed_genesis_header(&self) -> reth_primitives_stub::SealedHeader { unimplemented!() }
    pub fn genesis_header(&self) -> &alloy::consensus::Header { unimplemented!() }
    pub fn chain(&self) -> u64 { unimplemented!() }
    pub fn from_genesis(genesis: Genesis) -> Self { Self { genesis } }
}
impl From<Genesis> for ChainSpec { fn from(genesis: Genesis) -> Self { Self { genesis } } }
mod reth_primitives_stub { pub type SealedHeader = reth_primitives::SealedHeader; }
