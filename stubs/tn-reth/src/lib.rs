//! stand-in
