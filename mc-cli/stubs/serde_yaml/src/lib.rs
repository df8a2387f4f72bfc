//! Stand-in for serde_yaml: the JSON subset of YAML.
pub use serde_json::Error;
pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, Error> {
    serde_json::from_str(s)
}
pub fn to_string<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, Error> {
    serde_json::to_string_pretty(v)
}
