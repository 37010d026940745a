use std::any::Any;

use serde_json::Value;

pub fn panic_text(panic: &(dyn Any + Send)) -> String {
    panic
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| panic.downcast_ref::<&str>().map(|it| it.to_string()))
        .unwrap_or_else(|| "panic".to_string())
}

pub fn str_<'a>(value: &'a Value, key: &str) -> &'a str {
    value[key].as_str().unwrap_or_else(|| panic!("case without string {}: {}", key, value))
}

pub fn int(value: &Value, key: &str) -> i64 {
    value[key].as_i64().unwrap_or_else(|| panic!("case without number {}: {}", key, value))
}

pub fn arr<'a>(value: &'a Value, key: &str) -> &'a [Value] {
    value[key].as_array().unwrap_or_else(|| panic!("case without array {}: {}", key, value))
}

/// Texts are written as code points.
pub fn text(value: &Value) -> String {
    value
        .as_array()
        .unwrap_or_else(|| panic!("not a text: {}", value))
        .iter()
        .map(|it| std::char::from_u32(it.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn code_points(text: &str) -> Value {
    text.chars().map(|it| it as u32).collect::<Vec<_>>().into()
}
