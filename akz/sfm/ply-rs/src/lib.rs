//! The part of ply-rs (0.1) that cv-sfm uses: writing ASCII files.
pub mod ply {
    use std::ops::{Deref, DerefMut};

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Encoding {
        Ascii,
        BinaryBigEndian,
        BinaryLittleEndian,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum ScalarType {
        Char,
        UChar,
        Short,
        UShort,
        Int,
        UInt,
        Float,
        Double,
    }
    impl ScalarType {
        pub(crate) fn name(self) -> &'static str {
            use ScalarType::*;
            match self {
                Char => "char",
                UChar => "uchar",
                Short => "short",
                UShort => "ushort",
                Int => "int",
                UInt => "uint",
                Float => "float",
                Double => "double",
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum PropertyType {
        Scalar(ScalarType),
        List(ScalarType, ScalarType),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Property {
        Char(i8),
        UChar(u8),
        Short(i16),
        UShort(u16),
        Int(i32),
        UInt(u32),
        Float(f32),
        Double(f64),
        ListInt(Vec<i32>),
        ListUInt(Vec<u32>),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct PropertyDef {
        pub name: String,
        pub data_type: PropertyType,
    }
    impl PropertyDef {
        pub fn new(name: String, data_type: PropertyType) -> Self {
            PropertyDef { name, data_type }
        }
    }
    /// A map which keeps the order of insertion.
    #[derive(Clone, Debug, PartialEq)]
    pub struct KeyMap<V>(pub(crate) Vec<(String, V)>);
    impl<V> Default for KeyMap<V> {
        fn default() -> Self {
            KeyMap(vec![])
        }
    }
    impl<V> KeyMap<V> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, k: String, v: V) -> Option<V> {
            match self.0.iter_mut().find(|(n, _)| *n == k) {
                Some((_, old)) => Some(std::mem::replace(old, v)),
                None => {
                    self.0.push((k, v));
                    None
                }
            }
        }
        pub fn get(&self, k: &str) -> Option<&V> {
            self.0.iter().find(|(n, _)| n == k).map(|(_, v)| v)
        }
    }
    pub trait Addable<T> {
        fn add(&mut self, v: T);
    }
    impl Addable<PropertyDef> for KeyMap<PropertyDef> {
        fn add(&mut self, v: PropertyDef) {
            self.insert(v.name.clone(), v);
        }
    }
    impl Addable<ElementDef> for KeyMap<ElementDef> {
        fn add(&mut self, v: ElementDef) {
            self.insert(v.name.clone(), v);
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct ElementDef {
        pub name: String,
        pub count: usize,
        pub properties: KeyMap<PropertyDef>,
    }
    impl ElementDef {
        pub fn new(name: String) -> Self {
            ElementDef { name, count: 0, properties: KeyMap::new() }
        }
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct DefaultElement(KeyMap<Property>);
    impl DefaultElement {
        pub fn new() -> Self {
            Self::default()
        }
    }
    impl Deref for DefaultElement {
        type Target = KeyMap<Property>;
        fn deref(&self) -> &KeyMap<Property> {
            &self.0
        }
    }
    impl DerefMut for DefaultElement {
        fn deref_mut(&mut self) -> &mut KeyMap<Property> {
            &mut self.0
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Header {
        pub encoding: Encoding,
        pub elements: KeyMap<ElementDef>,
        pub comments: Vec<String>,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Ply<E> {
        pub header: Header,
        pub payload: KeyMap<Vec<E>>,
    }
    impl<E> Ply<E> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Ply { header: Header { encoding: Encoding::Ascii, elements: KeyMap::new(), comments: vec![] }, payload: KeyMap::new() }
        }
    }
}
pub mod writer {
    use crate::ply::*;
    use std::io::{self, Write};

    pub struct Writer<E>(std::marker::PhantomData<E>);
    impl Writer<DefaultElement> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Writer(Default::default())
        }
        /// Counts the elements, then writes header and payload.
        pub fn write_ply<W: Write>(&self, w: &mut W, ply: &mut Ply<DefaultElement>) -> io::Result<usize> {
            assert_eq!(ply.header.encoding, Encoding::Ascii);
            let bad = |m: &str| io::Error::new(io::ErrorKind::InvalidInput, m.to_string());
            let mut s = String::from("ply\nformat ascii 1.0\n");
            for c in &ply.header.comments {
                s += &format!("comment {c}\n");
            }
            for (name, e) in ply.header.elements.0.iter_mut() {
                e.count = ply.payload.get(name).map_or(0, |p| p.len());
                s += &format!("element {name} {}\n", e.count);
                for (pn, p) in &e.properties.0 {
                    s += &match &p.data_type {
                        PropertyType::Scalar(t) => format!("property {} {pn}\n", t.name()),
                        PropertyType::List(i, t) => format!("property list {} {} {pn}\n", i.name(), t.name()),
                    };
                }
            }
            s += "end_header\n";
            for (name, _) in &ply.payload.0 {
                ply.header.elements.get(name).ok_or_else(|| bad("no such element"))?;
            }
            for (name, e) in &ply.header.elements.0 {
                for el in ply.payload.get(name).ok_or_else(|| bad("no payload"))? {
                    let mut words = vec![];
                    for (pn, _) in &e.properties.0 {
                        words.push(match el.get(pn).ok_or_else(|| bad("missing property"))? {
                            Property::Char(x) => x.to_string(),
                            Property::UChar(x) => x.to_string(),
                            Property::Short(x) => x.to_string(),
                            Property::UShort(x) => x.to_string(),
                            Property::Int(x) => x.to_string(),
                            Property::UInt(x) => x.to_string(),
                            Property::Float(x) => x.to_string(),
                            Property::Double(x) => x.to_string(),
                            Property::ListInt(v) => std::iter::once(v.len().to_string()).chain(v.iter().map(|x| x.to_string())).collect::<Vec<_>>().join(" "),
                            Property::ListUInt(v) => std::iter::once(v.len().to_string()).chain(v.iter().map(|x| x.to_string())).collect::<Vec<_>>().join(" "),
                        });
                    }
                    s += &words.join(" ");
                    s.push('\n');
                }
            }
            w.write_all(s.as_bytes())?;
            Ok(s.len())
        }
    }
}
