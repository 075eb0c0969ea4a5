//! strict XML reading of responses
use xml::reader::{EventReader, XmlEvent};

#[derive(Debug, Clone, Default)]
pub struct El {
    pub name: String,
    pub text: String,
    pub kids: Vec<El>,
}

impl El {
    pub fn get(&self, n: &str) -> Option<&El> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn t(&self, n: &str) -> Option<&str> {
        self.get(n).map(|e| e.text.as_str())
    }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.kids.iter().filter(move |k| k.name == n)
    }
}

pub fn parse(b: &[u8]) -> Result<El, String> {
    // line ends, XML 1.0 section 2.11, and characters, section 2.2
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    if let Some(c) = s.chars().find(|c| matches!(c, '\0'..='\x08' | '\x0b' | '\x0c' | '\x0e'..='\x1f' | '\u{fffe}' | '\u{ffff}')) {
        return Err(format!("not well-formed XML: character U+{:04X}", c as u32));
    }
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    let b = s.as_bytes();
    let cfg = xml::ParserConfig::new().trim_whitespace(false).cdata_to_characters(true);
    let mut st: Vec<El> = vec![];
    let mut root = None;
    for e in EventReader::new_with_config(b, cfg) {
        match e.map_err(|e| format!("not well-formed XML: {e}"))? {
            XmlEvent::StartElement { name, .. } => st.push(El {
                name: name.local_name,
                ..El::default()
            }),
            XmlEvent::EndElement { .. } => {
                let e = st.pop().ok_or("unbalanced")?;
                match st.last_mut() {
                    Some(p) => p.kids.push(e),
                    None => root = Some(e),
                }
            }
            XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {
                if let Some(p) = st.last_mut() {
                    p.text.push_str(&s);
                }
            }
            _ => {}
        }
    }
    root.ok_or_else(|| "no root element".into())
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}
