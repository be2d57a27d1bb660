//! Never compiled in: the plugins feature is off.
