//! Stand-in for rpassword: one line of standard input per prompt.
use std::io::{self, BufRead, Write};
pub fn prompt_password(prompt: impl ToString) -> io::Result<String> {
    io::stderr().write_all(prompt.to_string().as_bytes())?;
    let mut s = String::new();
    if io::stdin().lock().read_line(&mut s)? == 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
    Ok(s.trim_end_matches('\n').to_string())
}
