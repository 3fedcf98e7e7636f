//! Stand-in for Expander's `serdes` crate (the absent sibling repository).
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;
use std::io::{Read, Write};

pub use serdes_derive::ExpSerde;

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl fmt::Display for SerdeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SerdeError::IOError(e) => write!(f, "IO error: {e}"),
            SerdeError::DeserializeError => write!(f, "deserialization failed"),
        }
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _w: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_r: R) -> SerdeResult<Self> {
        Ok(())
    }
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                w.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        match u8::deserialize_from(r)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerdeError::DeserializeError),
        }
    }
}
impl ExpSerde for ethnum::U256 {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Ok(ethnum::U256::from_le_bytes(b))
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.as_bytes().to_vec().serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        String::from_utf8(Vec::<u8>::deserialize_from(r)?).map_err(|_| SerdeError::DeserializeError)
    }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::deserialize_from(&mut r)?);
        }
        Ok(v)
    }
}
impl<T: ExpSerde, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(T::deserialize_from(&mut r)?);
        }
        v.try_into().map_err(|_| SerdeError::DeserializeError)
    }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        match self {
            None => false.serialize_into(&mut w),
            Some(x) => {
                true.serialize_into(&mut w)?;
                x.serialize_into(&mut w)
            }
        }
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        Ok(if bool::deserialize_from(&mut r)? { Some(T::deserialize_from(&mut r)?) } else { None })
    }
}
impl<T: ExpSerde> ExpSerde for Box<T> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        (**self).serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Box::new(T::deserialize_from(r)?))
    }
}
impl<K: ExpSerde + Eq + Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        for (k, v) in self {
            k.serialize_into(&mut w)?;
            v.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut m = HashMap::new();
        for _ in 0..n {
            let k = K::deserialize_from(&mut r)?;
            m.insert(k, V::deserialize_from(&mut r)?);
        }
        Ok(m)
    }
}
macro_rules! tup {
    ($($n:ident $i:tt),*) => {
        impl<$($n: ExpSerde),*> ExpSerde for ($($n,)*) {
            fn serialize_into<W_: Write>(&self, mut w: W_) -> SerdeResult<()> { $( self.$i.serialize_into(&mut w)?; )* Ok(()) }
            fn deserialize_from<R_: Read>(mut r: R_) -> SerdeResult<Self> { Ok(($( $n::deserialize_from(&mut r)?, )*)) }
        }
    };
}
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
