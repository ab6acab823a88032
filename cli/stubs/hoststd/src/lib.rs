//! The standard library, with files, paths and the terminal taken from the message being handled.
pub use ::std::*;
pub mod host {
    use ::std::cell::RefCell;
    #[derive(Default)]
    pub struct World { pub files: Vec<(String, Vec<u8>)>, pub reads: Vec<u64>, pub lines: Vec<String>, pub out: String, pub written: Vec<(String, Vec<u8>)> }
    thread_local! { pub static W: RefCell<World> = RefCell::default(); }
    pub struct Reader<'a>(pub &'a [u8]);
    impl<'a> Reader<'a> {
        pub fn byte(&mut self) -> u8 { let b = self.0[0]; self.0 = &self.0[1..]; b }
        pub fn bytes(&mut self) -> &'a [u8] { let n = self.byte() as usize + 256 * self.byte() as usize; let (a, b) = self.0.split_at(n); self.0 = b; a }
        // the harness only sends ASCII
        pub fn text(&mut self) -> String { unsafe { String::from_utf8_unchecked(self.bytes().to_vec()) } }
        pub fn num(&mut self) -> u64 { let mut x = [0u8; 8]; for b in &mut x { *b = self.byte() } u64::from_le_bytes(x) }
        pub fn list<T>(&mut self, f: impl Fn(&mut Self) -> T) -> Vec<T> { let n = self.byte(); (0..n).map(|_| f(self)).collect() }
    }
    pub fn load(r: &mut Reader) {
        let files = r.list(|r| { let n = r.text(); let b = r.bytes().to_vec(); (n, b) });
        let reads = r.list(|r| r.num());
        let lines = r.list(|r| r.text());
        W.set(World { files, reads, lines, ..World::default() });
    }
    pub fn print(s: String) { W.with_borrow_mut(|w| w.out.push_str(&s)) }
    pub fn find(p: &str) -> Option<Vec<u8>> { W.with_borrow(|w| w.files.iter().find(|f| f.0 == p).map(|f| f.1.clone())) }
    /// How much the next read may return at most.
    pub fn read_limit() -> usize { W.with_borrow_mut(|w| if w.reads.is_empty() { usize::MAX } else { w.reads.remove(0) as usize }) }
    pub fn outcome(ok: bool) -> Vec<u8> {
        W.with_borrow(|w| {
            let mut v = vec![ok as u8, w.written.len() as u8];
            let mut put = |b: &[u8]| { v.push(b.len() as u8); v.push((b.len() >> 8) as u8); v.extend_from_slice(b) };
            for (n, b) in &w.written { put(n.as_bytes()); put(b) }
            put(w.out.as_bytes());
            v
        })
    }
}
pub mod path {
    pub use ::std::path::*;
    #[repr(transparent)]
    pub struct Path(str);
    impl Path {
        pub fn new<S: AsRef<str> + ?Sized>(s: &S) -> &Path { unsafe { &*(s.as_ref() as *const str as *const Path) } }
        pub fn exists(&self) -> bool { super::host::find(&self.0).is_some() }
        pub fn is_file(&self) -> bool { self.exists() }
        pub fn to_str(&self) -> Option<&str> { Some(&self.0) }
    }
    impl AsRef<str> for Path { fn as_ref(&self) -> &str { &self.0 } }
}
pub mod fs {
    pub use ::std::fs::*;
    use super::host;
    use ::std::io;
    fn get(p: &str) -> io::Result<Vec<u8>> { host::find(p).ok_or_else(|| io::Error::from(io::ErrorKind::NotFound)) }
    pub struct Metadata(u64);
    impl Metadata { pub fn len(&self) -> u64 { self.0 } pub fn is_file(&self) -> bool { true } pub fn is_dir(&self) -> bool { false } }
    pub struct File { data: Vec<u8>, pos: usize }
    impl File {
        pub fn open<P: AsRef<str>>(p: P) -> io::Result<File> { Ok(File { data: get(p.as_ref())?, pos: 0 }) }
        pub fn metadata(&self) -> io::Result<Metadata> { Ok(Metadata(self.data.len() as u64)) }
    }
    impl io::Read for File {
        // a read may return less than there is, never nothing before the end
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let left = self.data.len() - self.pos;
            if left == 0 || b.is_empty() { return Ok(0) }
            let n = left.min(b.len()).min(host::read_limit()).max(1);
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
    impl io::Seek for File {
        fn seek(&mut self, s: io::SeekFrom) -> io::Result<u64> {
            self.pos = match s { io::SeekFrom::Start(n) => n as usize, io::SeekFrom::End(n) => (self.data.len() as i64 + n) as usize, io::SeekFrom::Current(n) => (self.pos as i64 + n) as usize }.min(self.data.len());
            Ok(self.pos as u64)
        }
    }
    pub fn metadata<P: AsRef<str>>(p: P) -> io::Result<Metadata> { Ok(Metadata(get(p.as_ref())?.len() as u64)) }
    pub fn read<P: AsRef<str>>(p: P) -> io::Result<Vec<u8>> { get(p.as_ref()) }
    pub fn read_to_string<P: AsRef<str>>(p: P) -> io::Result<String> { String::from_utf8(get(p.as_ref())?).map_err(|_| io::Error::from(io::ErrorKind::InvalidData)) }
    pub fn write<P: AsRef<str>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        host::W.with_borrow_mut(|w| w.written.push((p.as_ref().to_string(), c.as_ref().to_vec())));
        Ok(())
    }
}
pub mod io {
    pub use ::std::io::*;
    pub struct Stdin;
    pub fn stdin() -> Stdin { Stdin }
    impl Stdin {
        pub fn read_line(&self, b: &mut String) -> Result<usize> {
            super::host::W.with_borrow_mut(|w| if w.lines.is_empty() { Ok(0) } else { let l = w.lines.remove(0); b.push_str(&l); b.push('\n'); Ok(l.len() + 1) })
        }
    }
}
