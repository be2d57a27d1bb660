//! Never compiled in: the multipart feature is off.
