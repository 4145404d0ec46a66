pub use midi2;
