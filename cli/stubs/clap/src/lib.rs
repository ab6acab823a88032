//! A command line that is already parsed: values by name, as clap hands them over.
use hoststd::host::Reader;
use std::any::Any;
#[derive(Default)]
pub struct ArgMatches { texts: Vec<(String, Vec<String>)>, numbers: Vec<(String, u64)>, flags: Vec<String>, sub: Option<(String, Box<ArgMatches>)> }
impl ArgMatches {
    pub fn load(r: &mut Reader) -> ArgMatches {
        let texts = r.list(|r| { let n = r.text(); let v = r.list(|r| r.text()); (n, v) });
        let numbers = r.list(|r| { let n = r.text(); let v = r.num(); (n, v) });
        let flags = r.list(|r| r.text());
        let sub = if r.byte() == 1 { let n = r.text(); Some((n, Box::new(ArgMatches::load(r)))) } else { None };
        ArgMatches { texts, numbers, flags, sub }
    }
    pub fn get_one<T: Any + Clone + Send + Sync + 'static>(&self, id: &str) -> Option<&T> {
        if let Some((_, v)) = self.numbers.iter().find(|x| x.0 == id) { return (v as &dyn Any).downcast_ref::<T>() }
        self.texts.iter().find(|x| x.0 == id).and_then(|x| x.1.first()).and_then(|v| (v as &dyn Any).downcast_ref::<T>())
    }
    pub fn get_many<T: Any + Clone + Send + Sync + 'static>(&self, id: &str) -> Option<impl Iterator<Item = &T>> {
        self.texts.iter().find(|x| x.0 == id).map(|x| x.1.iter().filter_map(|v| (v as &dyn Any).downcast_ref::<T>()))
    }
    pub fn get_flag(&self, id: &str) -> bool { self.flags.iter().any(|f| f == id) }
    pub fn contains_id(&self, id: &str) -> bool { self.texts.iter().any(|x| x.0 == id) || self.numbers.iter().any(|x| x.0 == id) }
    pub fn subcommand(&self) -> Option<(&str, &ArgMatches)> { self.sub.as_ref().map(|(n, m)| (n.as_str(), &**m)) }
    pub fn subcommand_name(&self) -> Option<&str> { self.subcommand().map(|x| x.0) }
}
