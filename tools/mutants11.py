HD = "wruster/src/http/headers.rs"
MUTANTS = [
    ("ord-values", "bad", "P07", [(HD, "for content in h.1.iter() {", "for content in h.1.iter().rev() {")]),
    ("ord-values-twice", "same", "P07", [(HD, "for content in h.1.iter() {", "for content in h.1.iter().rev().rev() {")]),
    ("ord-values-back", "bad", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            let mut left = h.1.iter();
            while let Some(content) = left.next_back() {
                let content = content.clone();""")]),
    ("ord-values-index", "bad", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            for i in 0..h.1.len() {
                let content = h.1[h.1.len() - 1 - i].clone();""")]),
    ("ord-values-index-same", "same", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            for i in 0..h.1.len() {
                let content = h.1[i].clone();""")]),
    ("ord-values-while-same", "same", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            let mut i = 0;
            while i < h.1.len() {
                let content = h.1[i].to_owned();
                i += 1;""")]),
    ("ord-values-while-first", "bad", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            let mut i = 1;
            while i < h.1.len() {
                let content = h.1[i].to_owned();
                i += 1;""")]),
    ("ord-values-while-last", "bad", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            let mut i = 0;
            while i + 1 < h.1.len() {
                let content = h.1[i].to_owned();
                i += 1;""")]),
    ("ord-values-get-same", "same", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            let mut i = 0;
            while let Some(content) = h.1.get(i) {
                let content = content.clone();
                i += 1;""")]),
    ("ord-values-enum-same", "same", "P07", [(HD, """            for content in h.1.iter() {
                let content = content.clone();""", """            for (i, content) in h.1.iter().enumerate() {
                debug!("writing value {}", i);
                let content = content.clone();""")]),
]
