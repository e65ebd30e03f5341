//! Stand-in for `wasm-bindgen-futures`.

