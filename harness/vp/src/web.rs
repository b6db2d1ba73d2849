//! Index pages for generated trees.
use crate::server::{Page, Server};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

static NR: AtomicU64 = AtomicU64::new(0);

/// A path that was never used: listings are cached by url.
pub fn fresh_prefix(name: &str) -> String {
    format!("/{}{}/", name, NR.fetch_add(1, Ordering::SeqCst))
}

/// The href of a file name.
pub fn quote(name: &str) -> String {
    let mut out = String::new();
    for b in name.bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~!$()*,;=@+&".contains(&b) {
            out.push(b as char)
        } else {
            out.push_str(&format!("%{:02X}", b))
        }
    }
    out
}

/// A text in a page.
pub fn html(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/// Style of the links: 0 relative, 1 absolute path, 2 directories by their index.html, 3 links twice (icons), 4 full urls.
pub fn index_page(url: &str, path: &str, parent: &str, dirs: &BTreeSet<String>, files: &BTreeSet<String>, style: u8) -> String {
    let mut out = format!("<!DOCTYPE HTML>\n<html><head><title>Index of {0}</title></head><body><h1>Index of {0}</h1><table>\n", path);
    out.push_str("<tr><th><a href=\"?C=N;O=D\">Name</a></th><th><a href=\"?C=M;O=A\">Last modified</a></th></tr>\n");
    let parent_link = match style {
        1 | 4 => parent.to_string(),
        2 => "../index.html".to_string(),
        _ => "../".to_string(),
    };
    out.push_str(&format!("<tr><td><a href=\"{}\">Parent Directory</a></td></tr>\n", parent_link));
    // sort links of this page and of its parent
    let sort = match style {
        1 => vec![format!("{}?C=S;O=A", path), format!("{}?C=N;O=D", parent)],
        2 => vec!["index.html?C=S;O=A".to_string(), "../index.html?C=N;O=D".to_string()],
        3 => vec!["./?C=S;O=A".to_string(), "../?C=N;O=D".to_string(), "#top".to_string()],
        4 => vec![format!("{}{}?C=S;O=A", url, path), format!("{}{}?C=N;O=D", url, parent)],
        _ => vec![],
    };
    for s in sort {
        out.push_str(&format!("<tr><td><a href=\"{}\">Size</a></td></tr>\n", s));
    }
    let base = match style {
        1 => path.to_string(),
        4 => format!("{}{}", url, path),
        _ => String::new(),
    };
    for d in dirs {
        let href = html(&format!("{}{}/{}", base, quote(d), if style == 2 { "index.html" } else { "" }));
        out.push_str(&format!("<tr><td><img src=\"/icons/folder.gif\"></td><td><a href=\"{}\">{}/</a></td></tr>\n", href, html(d)));
    }
    for f in files {
        let href = html(&format!("{}{}", base, quote(f)));
        let f = html(f);
        if style == 3 {
            out.push_str(&format!("<tr><td><a href=\"{0}\"><img src=\"/icons/text.gif\"></a></td><td><a href=\"{0}\">{1}</a></td></tr>\n", href, f));
        } else {
            out.push_str(&format!("<tr><td><a href=\"{}\">{}</a></td><td>2022-01-01</td></tr>\n", href, f));
        }
    }
    out.push_str("</table></body></html>\n");
    out
}

/// Serve files below a prefix, with an index page per directory. Returns the paths of the index pages.
pub fn serve_tree(server: &Server, prefix: &str, files: &[(String, Page)], style: u8) -> Vec<String> {
    let mut dirs: BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
    dirs.entry(String::new()).or_default();
    for (name, page) in files {
        let parts: Vec<&str> = name.split('/').collect();
        let mut dir = String::new();
        for p in &parts[..parts.len() - 1] {
            dirs.entry(dir.clone()).or_default().0.insert(p.to_string());
            dir.push_str(p);
            dir.push('/');
            dirs.entry(dir.clone()).or_default();
        }
        dirs.entry(dir.clone()).or_default().1.insert(parts[parts.len() - 1].to_string());
        let path = format!("{}{}", prefix, parts.iter().map(|p| quote(p)).collect::<Vec<_>>().join("/"));
        server.set(&path, page.clone());
    }
    let url = format!("http://{}", server.addr);
    let mut out = vec![];
    for (d, (subs, names)) in &dirs {
        let path = format!("{}{}", prefix, d.split('/').map(quote).collect::<Vec<_>>().join("/"));
        let parent = format!("{}/", path.trim_end_matches('/').rsplit_once('/').map(|p| p.0).unwrap_or(""));
        server.set(&path, Page::new(index_page(&url, &path, &parent, subs, names, style)));
        out.push(path);
    }
    out
}
