//! A strict emulation of a text terminal that snapshots its screen whenever input is requested.

use async_trait::async_trait;
use endbasic_std::console::*;
use endbasic_std::sound::Tone;
use std::collections::VecDeque;
use std::io;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub ch: char,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Screen {
    pub cells: Vec<Vec<Cell>>,
    pub x: usize,
    pub y: usize,
    pub cursor: bool,
    /// Whether this was requested by polling.
    pub alt: bool,
}

impl Screen {
    pub fn row(&self, y: usize) -> String {
        self.cells[y].iter().map(|c| c.ch).collect()
    }

    pub fn text(&self) -> String {
        (0..self.cells.len()).map(|y| format!("|{}|\n", self.row(y))).collect::<String>()
            + &format!("cursor at {},{}{}", self.x, self.y, if self.cursor { "" } else { " (hidden)" })
    }
}

pub struct Term {
    pub w: usize,
    pub h: usize,
    pub s: Screen,
    saved: Option<(Screen, Option<u8>, Option<u8>)>,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub keys: VecDeque<Key>,
    /// What the screen showed each time that a key was read.
    pub snaps: Vec<Screen>,
    /// Operations that no terminal can honor.
    pub bad: Vec<String>,
    /// Lines that scrolled away.
    pub gone: Vec<String>,
    /// How many times the alternate screen was entered.
    alts: usize,
    /// Number of lines gone and of alternate screens at each snapshot.
    pub ages: Vec<(usize, usize)>,
    pub interactive: bool,
    sync: bool,
    pub dirty: bool,
}

impl Term {
    pub fn new(w: usize, h: usize) -> Self {
        let cells = vec![vec![Cell { ch: ' ', fg: None, bg: None }; w]; h];
        Term {
            w,
            h,
            s: Screen { cells, x: 0, y: 0, cursor: true, alt: false },
            saved: None,
            fg: None,
            bg: None,
            keys: VecDeque::new(),
            snaps: vec![],
            bad: vec![],
            gone: vec![],
            alts: 0,
            ages: vec![],
            interactive: true,
            sync: true,
            dirty: false,
        }
    }

    fn blank(&self) -> Cell {
        Cell { ch: ' ', fg: self.fg, bg: self.bg }
    }

    pub fn sync(&self) -> bool {
        self.sync
    }

    pub fn newline(&mut self) {
        self.s.x = 0;
        if self.s.y + 1 < self.h {
            self.s.y += 1;
        } else {
            let b = self.blank();
            let l = self.s.cells.remove(0);
            self.gone.push(l.iter().map(|c| c.ch).collect());
            self.s.cells.push(vec![b; self.w]);
        }
    }

    pub fn put(&mut self, text: &str) {
        for ch in text.chars() {
            if ch.is_control() {
                self.bad.push(format!("control character in {:?}", text));
                continue;
            }
            if self.s.x >= self.w {
                self.newline();
            }
            let (x, y) = (self.s.x, self.s.y);
            self.s.cells[y][x] = Cell { ch, fg: self.fg, bg: self.bg };
            self.s.x += 1;
        }
        self.dirty = true;
    }

    fn snap(&mut self) {
        self.snaps.push(self.s.clone());
        self.ages.push((self.gone.len(), self.alts));
    }
}

#[async_trait(?Send)]
impl Console for Term {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        let b = self.blank();
        let (x, y) = (self.s.x, self.s.y);
        match how {
            ClearType::All => {
                self.s.cells = vec![vec![b; self.w]; self.h];
                self.s.x = 0;
                self.s.y = 0;
            }
            ClearType::CurrentLine => {
                self.s.cells[y] = vec![b; self.w];
                self.s.x = 0;
            }
            ClearType::PreviousChar => {
                if x > 0 {
                    self.s.cells[y][x - 1] = b;
                    self.s.x -= 1;
                }
            }
            ClearType::UntilNewLine => {
                for i in x..self.w {
                    self.s.cells[y][i] = b;
                }
            }
        }
        self.dirty = true;
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (self.fg, self.bg)
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.fg = fg;
        self.bg = bg;
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        if self.saved.is_some() {
            self.bad.push("nested alternate screens".to_owned());
        }
        self.saved = Some((self.s.clone(), self.fg, self.bg));
        self.s.alt = true;
        self.alts += 1;
        self.clear(ClearType::All)
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.s.cursor = false;
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        match self.saved.take() {
            Some((s, fg, bg)) => {
                let c = self.s.cursor;
                self.s = s;
                self.s.cursor = c;
                self.fg = fg;
                self.bg = bg;
            }
            None => self.bad.push("not in the alternate screen".to_owned()),
        }
        Ok(())
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        if usize::from(pos.x) >= self.w || usize::from(pos.y) >= self.h {
            self.bad.push(format!("locate {},{} out of the screen", pos.x, pos.y));
            return Ok(());
        }
        self.s.x = usize::from(pos.x);
        self.s.y = usize::from(pos.y);
        self.dirty = true;
        Ok(())
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        let x = self.s.x as i64 + i64::from(off);
        if x < 0 || x >= self.w as i64 {
            self.bad.push(format!("move by {} from column {}", off, self.s.x));
            return Ok(());
        }
        self.s.x = x as usize;
        self.dirty = true;
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.put(text);
        self.newline();
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.snap();
        match self.keys.pop_front() {
            Some(k) => Ok(k),
            None => Err(io::Error::other("Out of keys")),
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.s.cursor = true;
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(self.w as u16, self.h as u16))
    }
    fn size_pixels(&self) -> io::Result<SizeInPixels> {
        Err(io::Error::other("No graphics"))
    }
    fn glyph_size(&self) -> io::Result<SizeInPixels> {
        Err(io::Error::other("No graphics"))
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        self.put(text);
        Ok(())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        self.dirty = false;
        Ok(())
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        if enabled {
            self.dirty = false;
        }
        Ok(std::mem::replace(&mut self.sync, enabled))
    }
    async fn play_tone(&mut self, _tone: Tone) -> io::Result<()> {
        Ok(())
    }
}
