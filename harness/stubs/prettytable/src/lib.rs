//! Empty stand-in: fcb_core's library never uses this dependency.
