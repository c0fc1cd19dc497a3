//! Conversions between the reference values and the crate's, by matching the public enums.
use bencode::{Value, ValueRef};
use engine::model::Val;

pub fn to_value(v: &Val) -> Value {
    match v {
        Val::Int(n) => Value::Int(*n),
        Val::Bytes(b) => Value::Bytes(b.clone()),
        Val::List(l) => Value::List(l.iter().map(to_value).collect()),
        Val::Dict(d) => Value::Dict(d.iter().map(|(k, v)| (k.clone(), to_value(v))).collect()),
    }
}
pub fn to_ref(v: &Val) -> ValueRef<'_> {
    match v {
        Val::Int(n) => ValueRef::Int(*n),
        Val::Bytes(b) => ValueRef::Bytes(b),
        Val::List(l) => ValueRef::List(l.iter().map(to_ref).collect()),
        Val::Dict(d) => ValueRef::Dict(d.iter().map(|(k, v)| (&k[..], to_ref(v))).collect()),
    }
}
pub fn of_value(v: &Value) -> Val {
    match v {
        Value::Int(n) => Val::Int(*n),
        Value::Bytes(b) => Val::Bytes(b.clone()),
        Value::List(l) => Val::List(l.iter().map(of_value).collect()),
        Value::Dict(d) => Val::Dict(d.iter().map(|(k, v)| (k.clone(), of_value(v))).collect()),
    }
}
pub fn of_ref(v: &ValueRef) -> Val {
    match v {
        ValueRef::Int(n) => Val::Int(*n),
        ValueRef::Bytes(b) => Val::Bytes(b.to_vec()),
        ValueRef::List(l) => Val::List(l.iter().map(of_ref).collect()),
        ValueRef::Dict(d) => Val::Dict(d.iter().map(|(k, v)| (k.to_string(), of_ref(v))).collect()),
    }
}
pub fn brief(v: &Val) -> String {
    engine::show(&v.to_vec())
}
