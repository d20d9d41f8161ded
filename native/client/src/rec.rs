//! A serializer that records exactly what it is asked to serialize, as a tree; and values of every serde shape.
use serde::ser::*;
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Tree {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Tree>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    NewtypeStruct(&'static str, Box<Tree>),
    NewtypeVariant(&'static str, u32, &'static str, Box<Tree>),
    Seq(Option<usize>, Vec<Tree>),
    Tuple(usize, Vec<Tree>),
    TupleStruct(&'static str, usize, Vec<Tree>),
    TupleVariant(&'static str, u32, &'static str, usize, Vec<Tree>),
    Map(Option<usize>, Vec<(Tree, Tree)>),
    Struct(&'static str, usize, Vec<(&'static str, Tree)>),
    StructVariant(&'static str, u32, &'static str, usize, Vec<(&'static str, Tree)>),
}

/// a Tree is also a value: serializing it makes exactly the calls it describes
impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Tree::Bool(v) => s.serialize_bool(*v),
            Tree::I8(v) => s.serialize_i8(*v),
            Tree::I16(v) => s.serialize_i16(*v),
            Tree::I32(v) => s.serialize_i32(*v),
            Tree::I64(v) => s.serialize_i64(*v),
            Tree::U8(v) => s.serialize_u8(*v),
            Tree::U16(v) => s.serialize_u16(*v),
            Tree::U32(v) => s.serialize_u32(*v),
            Tree::U64(v) => s.serialize_u64(*v),
            Tree::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            Tree::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            Tree::Char(v) => s.serialize_char(*v),
            Tree::Str(v) => s.serialize_str(v),
            Tree::Bytes(v) => s.serialize_bytes(v),
            Tree::None => s.serialize_none(),
            Tree::Some(v) => s.serialize_some(&**v),
            Tree::Unit => s.serialize_unit(),
            Tree::UnitStruct(n) => s.serialize_unit_struct(n),
            Tree::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Tree::NewtypeStruct(n, v) => s.serialize_newtype_struct(n, &**v),
            Tree::NewtypeVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            Tree::Seq(l, v) => {
                let mut q = s.serialize_seq(*l)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::Tuple(l, v) => {
                let mut q = s.serialize_tuple(*l)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::TupleStruct(n, l, v) => {
                let mut q = s.serialize_tuple_struct(n, *l)?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::TupleVariant(n, i, va, l, v) => {
                let mut q = s.serialize_tuple_variant(n, *i, va, *l)?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::Map(l, v) => {
                let mut q = s.serialize_map(*l)?;
                for (k, x) in v {
                    q.serialize_key(k)?;
                    q.serialize_value(x)?;
                }
                q.end()
            }
            Tree::Struct(n, l, v) => {
                let mut q = s.serialize_struct(n, *l)?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Tree::StructVariant(n, i, va, l, v) => {
                let mut q = s.serialize_struct_variant(n, *i, va, *l)?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fail(pub i64);
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Fail {}
impl serde::ser::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail(-1)
    }
}

/// budget: number of steps until one fails (None: never)
#[derive(Clone)]
pub struct Rec<'a> {
    pub budget: &'a std::cell::Cell<i64>,
}

impl<'a> Rec<'a> {
    fn step(&self) -> Result<(), Fail> {
        let b = self.budget.get();
        self.budget.set(b - 1);
        if b == 0 {
            return Err(Fail(7));
        }
        Ok(())
    }
}

pub struct RecC<'a> {
    rec: Rec<'a>,
    shape: Tree,
    key: Option<Tree>,
}

impl<'a> RecC<'a> {
    fn push(&mut self, t: Tree) {
        match &mut self.shape {
            Tree::Seq(_, v) | Tree::Tuple(_, v) | Tree::TupleStruct(_, _, v) | Tree::TupleVariant(_, _, _, _, v) => v.push(t),
            _ => unreachable!(),
        }
    }
    fn field(&mut self, k: &'static str, t: Tree) {
        match &mut self.shape {
            Tree::Struct(_, _, v) | Tree::StructVariant(_, _, _, _, v) => v.push((k, t)),
            _ => unreachable!(),
        }
    }
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.rec.step()?;
        let t = v.serialize(self.rec.clone())?;
        self.push(t);
        Ok(())
    }
    fn fin(self) -> Result<Tree, Fail> {
        self.rec.step()?;
        Ok(self.shape)
    }
}

macro_rules! scalar {
    ($($f:ident $t:ty, $v:ident => $e:expr;)*) => { $(fn $f(self, $v: $t) -> Result<Tree, Fail> { self.step()?; Ok($e) })* };
}

impl<'a> Serializer for Rec<'a> {
    type Ok = Tree;
    type Error = Fail;
    type SerializeSeq = RecC<'a>;
    type SerializeTuple = RecC<'a>;
    type SerializeTupleStruct = RecC<'a>;
    type SerializeTupleVariant = RecC<'a>;
    type SerializeMap = RecC<'a>;
    type SerializeStruct = RecC<'a>;
    type SerializeStructVariant = RecC<'a>;
    scalar! {
        serialize_bool bool, v => Tree::Bool(v);
        serialize_i8 i8, v => Tree::I8(v);
        serialize_i16 i16, v => Tree::I16(v);
        serialize_i32 i32, v => Tree::I32(v);
        serialize_i64 i64, v => Tree::I64(v);
        serialize_u8 u8, v => Tree::U8(v);
        serialize_u16 u16, v => Tree::U16(v);
        serialize_u32 u32, v => Tree::U32(v);
        serialize_u64 u64, v => Tree::U64(v);
        serialize_f32 f32, v => Tree::F32(v.to_bits());
        serialize_f64 f64, v => Tree::F64(v.to_bits());
        serialize_char char, v => Tree::Char(v);
        serialize_str &str, v => Tree::Str(v.to_string());
        serialize_bytes &[u8], v => Tree::Bytes(v.to_vec());
        serialize_unit_struct &'static str, v => Tree::UnitStruct(v);
    }
    fn serialize_none(self) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::None)
    }
    fn serialize_unit(self) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::NewtypeStruct(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, va: &'static str, v: &T) -> Result<Tree, Fail> {
        self.step()?;
        Ok(Tree::NewtypeVariant(n, i, va, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::Seq(l, vec![]), key: None })
    }
    fn serialize_tuple(self, l: usize) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::Tuple(l, vec![]), key: None })
    }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::TupleStruct(n, l, vec![]), key: None })
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::TupleVariant(n, i, v, l, vec![]), key: None })
    }
    fn serialize_map(self, l: Option<usize>) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::Map(l, vec![]), key: None })
    }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::Struct(n, l, vec![]), key: None })
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<RecC<'a>, Fail> {
        self.step()?;
        Ok(RecC { rec: self, shape: Tree::StructVariant(n, i, v, l, vec![]), key: None })
    }
}

macro_rules! compound {
    ($($tr:ident $f:ident;)*) => { $(impl<'a> $tr for RecC<'a> {
        type Ok = Tree; type Error = Fail;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> { self.elem(v) }
        fn end(self) -> Result<Tree, Fail> { self.fin() }
    })* };
}
compound! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl<'a> SerializeMap for RecC<'a> {
    type Ok = Tree;
    type Error = Fail;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.rec.step()?;
        self.key = Some(v.serialize(self.rec.clone())?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        let t = v.serialize(self.rec.clone())?;
        let k = self.key.take().unwrap();
        match &mut self.shape {
            Tree::Map(_, x) => x.push((k, t)),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn end(self) -> Result<Tree, Fail> {
        self.fin()
    }
}
macro_rules! structy {
    ($($tr:ident)*) => { $(impl<'a> $tr for RecC<'a> {
        type Ok = Tree; type Error = Fail;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
            self.rec.step()?;
            let t = v.serialize(self.rec.clone())?;
            self.field(k, t);
            Ok(())
        }
        fn end(self) -> Result<Tree, Fail> { self.fin() }
    })* };
}
structy! { SerializeStruct SerializeStructVariant }
