From 7b4cf237b03fcfc9f69cdb46a1009eedb7cc440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 01/16] fix: reset intensity when switching directly between
 bold and faint in ANSI output

---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 15 ++++++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..6acef11 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..f60db38 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..16e3dc4 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,16 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+pub(crate) fn intensity(from: Intensity, to: Intensity) -> &'static str {
+    match (from, to) {
+        // Terminals track bold and faint independently and only `22` clears
+        // them, so without it switching directly from one to the other would
+        // render as both.
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, Intensity::Bold) => "1",
+        (_, Intensity::Faint) => "2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 3d44d4e97c5f58d4d3da6f641be022354757ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 02/16] fix: keep default-valued attributes in format strings

`fg=default`, `bg=default` and `normal` were dropped from the parsed
attributes, so they could not undo a style inherited from an enclosing
formatter.
---
 macros/src/format.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..1acea6c 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,24 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +75,17 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From 8bc208a4292eab6200a01a85dc9eb46e4892afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 03/16] fix: accept empty attribute lists and trailing commas
 in format strings

The documented grammar is
`attributes := '(' [attribute [',' attribute]* [',']] ')'`.
---
 macros/src/format.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 1acea6c..a2e7fc7 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -75,10 +75,13 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            opt(terminated(
+                separated_list1(tag(","), Attribute::parse),
+                opt(tag(",")),
+            )),
             |attributes| {
                 let mut diff = StyleDiff::default();
-                for attribute in attributes {
+                for attribute in attributes.unwrap_or_default() {
                     match attribute {
                         Attribute::Foreground(color) => diff.foreground = Some(color),
                         Attribute::Background(color) => diff.background = Some(color),
-- 
2.43.0


From b164107df3ab862af15307cf3882df63a0c2886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 04/16] fix: accept the bright colors in format strings

The `fg` and `bg` attributes are documented to take a `Color` value in
lowercase, but the bright colors were never added to the macros.
---
 macros/src/format.rs    | 8 ++++++++
 macros/src/to_tokens.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index a2e7fc7..7c56239 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -34,6 +34,14 @@ impl<'a> Parse<'a> for Color {
             value(Color::Cyan, tag("cyan")),
             value(Color::White, tag("white")),
             value(Color::Default, tag("default")),
+            value(Color::BrightBlack, tag("brightblack")),
+            value(Color::BrightRed, tag("brightred")),
+            value(Color::BrightGreen, tag("brightgreen")),
+            value(Color::BrightYellow, tag("brightyellow")),
+            value(Color::BrightBlue, tag("brightblue")),
+            value(Color::BrightMagenta, tag("brightmagenta")),
+            value(Color::BrightCyan, tag("brightcyan")),
+            value(Color::BrightWhite, tag("brightwhite")),
         ))(input)
     }
 }
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..67f26a7 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -60,6 +60,14 @@ impl<'a> ToTokens for Scoped<'a, Color> {
             Color::Cyan => quote!(#export::Color::Cyan),
             Color::White => quote!(#export::Color::White),
             Color::Default => quote!(#export::Color::Default),
+            Color::BrightBlack => quote!(#export::Color::BrightBlack),
+            Color::BrightRed => quote!(#export::Color::BrightRed),
+            Color::BrightGreen => quote!(#export::Color::BrightGreen),
+            Color::BrightYellow => quote!(#export::Color::BrightYellow),
+            Color::BrightBlue => quote!(#export::Color::BrightBlue),
+            Color::BrightMagenta => quote!(#export::Color::BrightMagenta),
+            Color::BrightCyan => quote!(#export::Color::BrightCyan),
+            Color::BrightWhite => quote!(#export::Color::BrightWhite),
             color => unreachable!("unknown color {color:?}"),
         }
         .to_tokens(tokens)
-- 
2.43.0


From 763547e312e3fab9ab08bf4447cda8cdacc0f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 05/16] fix: reject duplicate named arguments in format strings

All but the last argument of the same name were silently dropped without
triggering the unused argument check.
---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..d887e55 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -121,6 +121,9 @@ fn format_args_impl(
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
+    if named_args_names.len() != named_args_values.len() {
+        panic!("duplicate named arguments");
+    }
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
         (#(&#named_args_values,)*)
-- 
2.43.0


From 9a9da92359335d3c409ff303db05379a26597975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 06/16] fix: don't depend on names in scope at the call site
 for format string attributes

The expansion used the bare names `Some`, `StyleDiff::default` (which needs
`Default` in scope) and a local `diff`, so it failed to compile where those
were shadowed or under `no_implicit_prelude`, unlike the rest of the
expansion.
---
 core/src/lib.rs         |  2 +-
 macros/src/to_tokens.rs | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..eb5daaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -48,7 +48,7 @@ pub use self::{format::format, string::String};
 #[cfg(feature = "macros")]
 #[doc(hidden)]
 pub mod 𓀄 {
-    pub use core::{fmt, option::Option};
+    pub use core::{default::Default, fmt, option::Option};
 
     pub use stylish_macros::{format_args, format_args_nl};
     pub use with_builtin_macros::with_builtin;
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 67f26a7..2f7a32c 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -106,20 +106,24 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             ..
         } = self.as_ref();
         let mut inner = TokenStream::new();
-        quote!(let mut diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote!(let mut __stylish_diff: #export::StyleDiff = #export::Default::default();)
+            .to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
-            quote!(diff.foreground = Some(#foreground);).to_tokens(&mut inner);
+            quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
+                .to_tokens(&mut inner);
         }
         if let Some(background) = background {
             let background = self.scope(background);
-            quote!(diff.background = Some(#background);).to_tokens(&mut inner);
+            quote!(__stylish_diff.background = #export::Option::Some(#background);)
+                .to_tokens(&mut inner);
         }
         if let Some(intensity) = intensity {
             let intensity = self.scope(intensity);
-            quote!(diff.intensity = Some(#intensity);).to_tokens(&mut inner);
+            quote!(__stylish_diff.intensity = #export::Option::Some(#intensity);)
+                .to_tokens(&mut inner);
         }
-        quote!(diff).to_tokens(&mut inner);
+        quote!(__stylish_diff).to_tokens(&mut inner);
         quote!({ #inner }).to_tokens(tokens);
     }
 }
-- 
2.43.0


From 69472622099b3c00d52b7ff71e14160da34be12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 07/16] fix: support `self` and raw identifiers as format
 string arguments

Capturing `self` panicked in `Ident::new_raw`, and an argument passed as
`r#type = ..` was never matched up with `{type}`.
---
 macros/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index d887e55..916e413 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -117,7 +118,7 @@ fn format_args_impl(
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
-        .map(|name| name.to_string())
+        .map(|name| name.unraw().to_string())
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
@@ -173,13 +174,15 @@ fn format_args_impl(
                             quote!(__stylish_named_args.#index)
                         } else {
                             let i = implicit_named_args_values.len();
+                            let span = Span::call_site().resolved_at(format_string.span());
                             implicit_named_args_values.push(ExprPath {
                                 attrs: Vec::new(),
                                 qself: None,
-                                path: Ident::new_raw(
-                                    name,
-                                    Span::call_site().resolved_at(format_string.span()),
-                                )
+                                path: if name == "self" {
+                                    Ident::new(name, span)
+                                } else {
+                                    Ident::new_raw(name, span)
+                                }
                                 .into(),
                             });
                             let index = Index::from(i);
-- 
2.43.0


From b5294ec59700036cb215a10f4be6fe7d317d756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 08/16] fix: accept builtin macros as the format string of
 writeln!

Every other formatting macro already goes through `with_builtin!`, so
`write!(w, concat!(..))` worked but `writeln!(w, concat!(..))` did not.
---
 core/src/write.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/write.rs b/core/src/write.rs
index 72c3a14..8e45b55 100644
--- a/core/src/write.rs
+++ b/core/src/write.rs
@@ -163,7 +163,10 @@ macro_rules! writeln {
     ($dst:expr $(,)?) => {
         $crate::write!($dst, "\n")
     };
-    ($dst:expr, $($arg:tt)*) => {
-        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $($arg)*))
+    ($dst:expr, $fmt:literal $(, $($arg:tt)*)?) => {
+        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?))
+    };
+    ($dst:expr, $fmt:expr $(, $($arg:tt)*)?) => {
+        $dst.write_fmt($crate::format_args!(concat!($fmt, "\n") $(, $($arg)*)?))
     };
 }
-- 
2.43.0


From 488d282c341964aedabebb0b6a9a6ffffd1ea21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 09/16] fix: reject width and precision literals that core::fmt
 cannot represent

They were accepted and then panicked with "Formatting argument out of range"
every time the arguments were formatted.
---
 macros/src/format.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 7c56239..dbd4790 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -80,8 +80,8 @@ impl<'a> Parse<'a> for Attribute {
 
 impl<'a> Parse<'a> for StyleDiff {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
-        // TODO: This should only allow each variant once, but there's no sort of
-        // optional-permutation helper in nom
+        // TODO: This should only allow each variant once, but there's no sort
+        // of optional-permutation helper in nom
         map(
             opt(terminated(
                 separated_list1(tag(","), Attribute::parse),
@@ -178,7 +178,11 @@ impl<'a> Parse<'a> for Count<'a> {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(terminated(FormatArgRef::parse, tag("$")), Self::Parameter),
-            map(map_res(digit1, usize::from_str), Self::Integer),
+            // `core::fmt` only supports counts up to `u16::MAX`, it panics on
+            // larger ones
+            map(map_res(digit1, u16::from_str), |count| {
+                Self::Integer(count.into())
+            }),
         ))(input)
     }
 }
-- 
2.43.0


From eb7db0dd538a43ddad1bc9e7b68fd9ed9c564ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 10/16] fix: enable the alloc items of stylish-style along with
 those of stylish-core

`Restyle for Box<T>` was never available to users of `stylish`, as nothing
forwarded the `alloc` feature to the crate it lives in.
---
 core/Cargo.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/Cargo.toml b/core/Cargo.toml
index ec4af9b..6447793 100644
--- a/core/Cargo.toml
+++ b/core/Cargo.toml
@@ -9,8 +9,8 @@ readme = "../README.md"
 
 [features]
 default = ["std"]
-std = ["alloc"]
-alloc = []
+std = ["alloc", "stylish-style/std"]
+alloc = ["stylish-style/alloc"]
 macros = ["dep:with_builtin_macros", "dep:stylish-macros"]
 
 [dependencies]
-- 
2.43.0


From cd870f4df26013b8be29c8ad5b7e0bc23f4fb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 11/16] fix: take a reference to the whole argument expression,
 not to its first operand

---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 916e413..e212333 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -114,7 +114,7 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
@@ -127,7 +127,7 @@ fn format_args_impl(
     }
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From 66e269712ca257dd44ea4fc653ff95235239dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 12/16] fix: don't let a constant named res at the call site
 break the format! macros

---
 ansi/src/format.rs  | 4 ++--
 core/src/format.rs  | 4 ++--
 html/src/format.rs  | 4 ++--
 plain/src/format.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ansi/src/format.rs b/ansi/src/format.rs
index fac9f0f..b7138b4 100644
--- a/ansi/src/format.rs
+++ b/ansi/src/format.rs
@@ -17,8 +17,8 @@ use crate::Ansi;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/core/src/format.rs b/core/src/format.rs
index 9d9c19b..e87fe77 100644
--- a/core/src/format.rs
+++ b/core/src/format.rs
@@ -18,8 +18,8 @@ use crate::{Arguments, String, Write};
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::format_args!($($arg)*));
+        __stylish_res
     }};
 }
 
diff --git a/html/src/format.rs b/html/src/format.rs
index 51ba819..d669893 100644
--- a/html/src/format.rs
+++ b/html/src/format.rs
@@ -17,8 +17,8 @@ use crate::Html;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/plain/src/format.rs b/plain/src/format.rs
index 6a68159..9616a79 100644
--- a/plain/src/format.rs
+++ b/plain/src/format.rs
@@ -16,8 +16,8 @@ use crate::Plain;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
-- 
2.43.0


From 4a6ccc7212001132f5687fb8fc70a6b35f5e027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 13/16] fix: parse names of format arguments as std does

Keywords are valid names of arguments in std, they were rejected. Attributes
and a leading path separator before a name were silently ignored.
---
 macros/src/lib.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e212333..ab3007b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -12,8 +12,9 @@ use quote::{quote, ToTokens};
 use syn::{
     ext::IdentExt,
     parse::{ParseStream, Result},
-    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
-    Token,
+    parse_macro_input,
+    token::Group,
+    Expr, ExprPath, Ident, Index, LitStr, Path, Token,
 };
 
 use self::{
@@ -67,24 +68,24 @@ impl syn::parse::Parse for ArgsInput {
             if input.is_empty() {
                 break;
             }
-            let expr = input.parse::<Expr>()?;
-            match expr {
-                Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
-                {
-                    let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
-                        path.segments.pop().unwrap().into_value().ident
-                    } else {
-                        panic!()
-                    };
-                    named_args.push((ident, *right));
-                    onto_named = true;
-                }
-                expr => {
-                    if onto_named {
-                        panic!("positional arg after named")
-                    }
-                    positional_args.push(expr);
+            // As in `core::fmt` the name may be a keyword, so this can't be parsed as an
+            // assignment expression.
+            if input.peek(Ident::peek_any)
+                && !input.peek(Group)
+                && !input.peek(Token![_])
+                && input.peek2(Token![=])
+                && !input.peek2(Token![==])
+                && !input.peek2(Token![=>])
+            {
+                let ident = input.call(Ident::parse_any)?;
+                input.parse::<Token![=]>()?;
+                named_args.push((ident, input.parse()?));
+                onto_named = true;
+            } else {
+                if onto_named {
+                    panic!("positional arg after named")
                 }
+                positional_args.push(input.parse()?);
             }
         }
         Ok(Self {
-- 
2.43.0


From 8c42c02c68da9751d76fc23fba1e4f46f83164a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 14/16] fix: reject format strings with a literal suffix

As std does; the suffix was silently ignored.
---
 macros/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index ab3007b..45307ac 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -44,9 +44,9 @@ impl syn::parse::Parse for ArgsInput {
             None
         };
         #[cfg(not(stylish_proc_macro_expand))]
-        let format = input.parse()?;
+        let format: LitStr = input.parse()?;
         #[cfg(stylish_proc_macro_expand)]
-        let format = {
+        let format: LitStr = {
             use syn::spanned::Spanned;
             let expr = input.parse::<Expr>()?;
             let span = expr.span();
@@ -60,6 +60,12 @@ impl syn::parse::Parse for ArgsInput {
             }
             syn::parse(expanded)?
         };
+        if !format.suffix().is_empty() {
+            return Err(syn::Error::new(
+                format.span(),
+                "suffixes on string literals are invalid",
+            ));
+        }
         let mut positional_args = Vec::new();
         let mut named_args = Vec::new();
         let mut onto_named = false;
-- 
2.43.0


From c09a58710728ad23511d9417d534037a3d89bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 15/16] fix: capture each name of a format string once, as std
 does

A captured constant was instantiated once per reference, so with "{K} {K}"
its state and destructor differed from core::fmt and from "{k} {k}", k = K.
---
 macros/src/lib.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 45307ac..8b99373 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -136,6 +136,9 @@ fn format_args_impl(
     let named_args_values = quote! {
         (#(&(#named_args_values),)*)
     };
+    // As in `core::fmt` each captured name is a single argument, however often
+    // it's used; it may be a constant that gets instantiated.
+    let mut implicit_named_args_names = HashMap::new();
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
     let mut used_named_args = HashSet::new();
@@ -180,18 +183,21 @@ fn format_args_impl(
                             used_named_args.insert(name.to_owned());
                             quote!(__stylish_named_args.#index)
                         } else {
-                            let i = implicit_named_args_values.len();
-                            let span = Span::call_site().resolved_at(format_string.span());
-                            implicit_named_args_values.push(ExprPath {
-                                attrs: Vec::new(),
-                                qself: None,
-                                path: if name == "self" {
-                                    Ident::new(name, span)
-                                } else {
-                                    Ident::new_raw(name, span)
-                                }
-                                .into(),
-                            });
+                            let next = implicit_named_args_values.len();
+                            let i = *implicit_named_args_names.entry(name).or_insert(next);
+                            if i == next {
+                                let span = Span::call_site().resolved_at(format_string.span());
+                                implicit_named_args_values.push(ExprPath {
+                                    attrs: Vec::new(),
+                                    qself: None,
+                                    path: if name == "self" {
+                                        Ident::new(name, span)
+                                    } else {
+                                        Ident::new_raw(name, span)
+                                    }
+                                    .into(),
+                                });
+                            }
                             let index = Index::from(i);
                             quote!(__stylish_implicit_named_args.#index)
                         }
-- 
2.43.0


From e1042559548105444e08ed6467b7a597001d2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 16/16] fix: allow {Self} in a format string, as std does

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 8b99373..3d79e78 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -190,7 +190,7 @@ fn format_args_impl(
                                 implicit_named_args_values.push(ExprPath {
                                     attrs: Vec::new(),
                                     qself: None,
-                                    path: if name == "self" {
+                                    path: if matches!(name, "self" | "Self") {
                                         Ident::new(name, span)
                                     } else {
                                         Ident::new_raw(name, span)
-- 
2.43.0

