//! crossterm with a scripted keyboard: everything but the source of the events is the real crate.
//! VH_KEYS names a file holding the keys: one character each, with these stand-ins: U+E001 Up, U+E002 Down, U+E003 Left,
//! U+E004 Right, U+E005 Backspace, U+E006 Delete, U+E007 Esc, U+E008 Tab, U+E009 a resize, U+E00A Enter.
//! Before each event U+001E is written to both outputs, so that what the app writes is separated by event.
//! At the end of the script a last mark is written and the process ends with code 0.
pub use real::*;
pub mod event {
    pub use real::event::*;
    use std::io::Write;
    use std::sync::Mutex;
    static KEYS: Mutex<Option<Vec<char>>> = Mutex::new(None);
    pub fn poll(_: std::time::Duration) -> real::Result<bool> { Ok(true) }
    pub fn read() -> real::Result<Event> {
        let mut g = KEYS.lock().unwrap();
        let q = g.get_or_insert_with(|| { let mut v: Vec<char> = std::fs::read_to_string(std::env::var("VH_KEYS").unwrap()).unwrap().chars().collect(); v.reverse(); v });
        print!("\u{1e}"); eprint!("\u{1e}");
        std::io::stdout().flush().unwrap();
        let key = |c| Event::Key(KeyEvent::new(c, KeyModifiers::NONE));
        Ok(match q.pop() {
            None => std::process::exit(0),
            Some('\u{e001}') => key(KeyCode::Up), Some('\u{e002}') => key(KeyCode::Down), Some('\u{e003}') => key(KeyCode::Left), Some('\u{e004}') => key(KeyCode::Right),
            Some('\u{e005}') => key(KeyCode::Backspace), Some('\u{e006}') => key(KeyCode::Delete), Some('\u{e007}') => key(KeyCode::Esc), Some('\u{e008}') => key(KeyCode::Tab),
            Some('\u{e009}') => Event::Resize(80, 24), Some('\u{e00a}') => key(KeyCode::Enter),
            Some(c) => key(KeyCode::Char(c)),
        })
    }
}
