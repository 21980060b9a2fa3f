pub use metrics; pub use reth_metrics_derive::Metrics;
