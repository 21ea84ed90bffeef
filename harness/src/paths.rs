use std::path::PathBuf;

pub fn verif() -> PathBuf {
    std::env::var_os("TV_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn repo() -> PathBuf {
    PathBuf::from("/repo")
}

/// Where run.sh puts binaries built from the repository.
pub fn bins() -> PathBuf {
    verif().join("target/bins/release")
}
