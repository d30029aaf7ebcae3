//! Stand-in for `ply-rs`: ASCII files written from a header and rows of properties.
pub mod ply {
    use std::collections::HashMap;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum Encoding {
        Ascii,
        BinaryBigEndian,
        BinaryLittleEndian,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum ScalarType {
        Char,
        UChar,
        Short,
        UShort,
        Int,
        UInt,
        Float,
        Double,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum PropertyType {
        Scalar(ScalarType),
        List(ScalarType, ScalarType),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Property {
        Char(i8),
        UChar(u8),
        Short(i16),
        UShort(u16),
        Int(i32),
        UInt(u32),
        Float(f32),
        Double(f64),
        ListChar(Vec<i8>),
        ListUChar(Vec<u8>),
        ListShort(Vec<i16>),
        ListUShort(Vec<u16>),
        ListInt(Vec<i32>),
        ListUInt(Vec<u32>),
        ListFloat(Vec<f32>),
        ListDouble(Vec<f64>),
    }
    #[derive(Debug, Clone)]
    pub struct PropertyDef {
        pub name: String,
        pub data_type: PropertyType,
    }
    impl PropertyDef {
        pub fn new(name: String, data_type: PropertyType) -> Self {
            Self { name, data_type }
        }
    }
    #[derive(Debug, Clone)]
    pub struct ElementDef {
        pub name: String,
        pub count: usize,
        pub properties: Vec<PropertyDef>,
    }
    impl ElementDef {
        pub fn new(name: String) -> Self {
            Self { name, count: 0, properties: vec![] }
        }
    }
    pub trait Addable<T> {
        fn add(&mut self, value: T);
    }
    impl<T> Addable<T> for Vec<T> {
        fn add(&mut self, value: T) {
            self.push(value);
        }
    }
    pub type DefaultElement = HashMap<String, Property>;
    #[derive(Debug, Clone)]
    pub struct Header {
        pub encoding: Encoding,
        pub comments: Vec<String>,
        pub elements: Vec<ElementDef>,
    }
    #[derive(Debug, Clone)]
    pub struct Ply<E> {
        pub header: Header,
        pub payload: HashMap<String, Vec<E>>,
    }
    impl<E> Default for Ply<E> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<E> Ply<E> {
        pub fn new() -> Self {
            Self {
                header: Header { encoding: Encoding::Ascii, comments: vec![], elements: vec![] },
                payload: HashMap::new(),
            }
        }
    }
}
pub mod writer {
    use crate::ply::*;
    use std::io::{Error, ErrorKind, Result, Write};
    pub struct Writer<E> {
        _e: std::marker::PhantomData<E>,
    }
    fn kind(s: ScalarType) -> &'static str {
        use ScalarType::*;
        match s {
            Char => "char",
            UChar => "uchar",
            Short => "short",
            UShort => "ushort",
            Int => "int",
            UInt => "uint",
            Float => "float",
            Double => "double",
        }
    }
    fn bad(what: String) -> Error {
        Error::new(ErrorKind::InvalidInput, what)
    }
    impl Default for Writer<DefaultElement> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Writer<DefaultElement> {
        pub fn new() -> Self {
            Self { _e: std::marker::PhantomData }
        }
        /// Counts are taken from the payload, which must hold exactly what the header promises.
        pub fn write_ply<W: Write>(&self, w: &mut W, ply: &mut Ply<DefaultElement>) -> Result<usize> {
            if ply.header.encoding != Encoding::Ascii {
                return Err(bad("only ASCII".into()));
            }
            for k in ply.payload.keys() {
                if !ply.header.elements.iter().any(|e| e.name == *k) {
                    return Err(bad(format!("no element {k} declared")));
                }
            }
            let mut out = String::from("ply\nformat ascii 1.0\n");
            for c in &ply.header.comments {
                out += &format!("comment {c}\n");
            }
            for e in &mut ply.header.elements {
                e.count = ply.payload.get(&e.name).map_or(0, Vec::len);
                out += &format!("element {} {}\n", e.name, e.count);
                for p in &e.properties {
                    match p.data_type {
                        PropertyType::Scalar(s) => out += &format!("property {} {}\n", kind(s), p.name),
                        PropertyType::List(i, s) => {
                            out += &format!("property list {} {} {}\n", kind(i), kind(s), p.name)
                        }
                    }
                }
            }
            out += "end_header\n";
            for e in &ply.header.elements {
                for row in ply.payload.get(&e.name).into_iter().flatten() {
                    let mut line = vec![];
                    for p in &e.properties {
                        let v = row.get(&p.name).ok_or_else(|| bad(format!("no property {}", p.name)))?;
                        use Property::*;
                        line.push(match (v, &p.data_type) {
                            (UChar(v), PropertyType::Scalar(ScalarType::UChar)) => v.to_string(),
                            (Int(v), PropertyType::Scalar(ScalarType::Int)) => v.to_string(),
                            (Float(v), PropertyType::Scalar(ScalarType::Float)) => v.to_string(),
                            (Double(v), PropertyType::Scalar(ScalarType::Double)) => v.to_string(),
                            (ListInt(v), PropertyType::List(_, ScalarType::Int)) => {
                                let mut s = v.len().to_string();
                                v.iter().for_each(|v| s += &format!(" {v}"));
                                s
                            }
                            (v, t) => return Err(bad(format!("{v:?} is not {t:?}"))),
                        });
                    }
                    out += &line.join(" ");
                    out += "\n";
                }
            }
            w.write_all(out.as_bytes())?;
            Ok(out.len())
        }
    }
}
