//! Stand-in for the git dependency `htpasswd-verify`, which cannot be fetched
//! offline. Passwords are compared in plain text: `user:password` per line.
use std::borrow::Cow;

pub struct Htpasswd<'a> {
    data: Cow<'a, str>,
}

impl<'a> Htpasswd<'a> {
    pub fn new_owned(data: &str) -> Htpasswd<'static> {
        Htpasswd { data: Cow::Owned(data.to_owned()) }
    }

    pub fn check(&self, username: &str, password: &str) -> bool {
        self.data.lines().any(|l| match l.split_once(':') {
            Some((u, p)) => u == username && p == password,
            None => false,
        })
    }
}
