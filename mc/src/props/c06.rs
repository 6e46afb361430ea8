//! C06: a package with `exports` is reachable by name through `exports` only, whatever else is in it.
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        gen,
        explore: once,
        oracle: spec_oracle,
        bounds: |_| json!({"package_layouts": 10, "nested_description_files": NESTED.len(), "enclosing_packages": OUTER.len(),
            "targets_leaving_the_package": TARGETS.len(), "names": NAMES, "requests": SUBS}),
        rests_on: &[FS_MODEL, ORACLE],
    }
}

const NAMES: &[&str] = &["m", "@s/m"];
const NESTED: &[&str] = &["-", "{}", "{\"name\":\"m\",\"exports\":{\".\":\"./x.js\",\"./lib/x.js\":\"./x.js\",\"./x.js\":\"./x.js\"}}", "{\"main\":\"./x.js\"}", "{\"name\":\"lib\",\"exports\":\"./x.js\"}"];
const OUTER: &[&str] = &[
    "-",
    "{}",
    "{\"name\":\"m\",\"exports\":{\".\":\"./src/self.js\",\"./lib/x.js\":\"./src/self.js\"}}",
    "{\"name\":\"@s/m\",\"exports\":{\".\":\"./src/self.js\",\"./s*\":\"./src/s*\"}}",
    "{\"name\":\"mm\",\"exports\":\"./src/self.js\"}",
    "{\"name\":\"@s\",\"exports\":\"./src/self.js\"}",
    "{\"exports\":{\".\":\"./src/self.js\",\"./lib/x.js\":\"./src/self.js\"}}",
    "{\"name\":\"m\",\"main\":\"./src/self.js\"}",
];
const EXPORTS: &[&str] = &[
    "-",
    "\"./pub.js\"",
    "{\".\":\"./pub.js\",\"./lib/p\":\"./lib/p.js\"}",
    "{\"./*\":\"./lib/*\"}",
    "{\"./lib/\":\"./lib/\"}",
    "{\"./lib/*\":null,\"./lib/x.js\":\"./lib/x.js\"}",
    "{}",
    "{\".\":{\"browser\":\"./pub.js\"}}",
];
const TARGETS: &[&str] = &[
    "./../out.js", "./lib/../../out.js", "./lib/../pub.js", "./lib//../../out.js", "./lib/./../../out.js", "./.hid/f.js",
    "./.hid/../../out.js", "./..d/f.js", "./.../f.js", "../out.js", "/w/out.js", "./..", "./.", "./lib/..", "./..d/../../out.js",
    "./.hid", "./lib", "pub.js", "lib/x.js", "./lib/x", "./pub", "./a/../../m/pub.js", "..", ".", "", "./", "p",
];
const SUBS: &[&str] = &[
    "", "/pub.js", "/secret.js", "/lib/x.js", "/lib/p", "/lib/p.js", "/lib", "/x.js", "/../m/secret.js", "/lib/../secret.js",
    "/package.json", "/../../out.js", "/p", "/self.js", "/./secret.js", "//secret.js", "/lib//../../secret.js", "/..", "/lib/../../secret.js",
];

fn package(c: &mut Case, dir: &str, name: &str, exports: &str, nested: &str) {
    let e = if exports == "-" { String::new() } else { format!(",\"exports\":{exports}") };
    c.file(&format!("{dir}/package.json"), &format!("{{\"name\":\"{name}\",\"main\":\"./secret.js\"{e}}}"));
    for f in ["pub.js", "secret.js", "index.js", "lib/x.js", "lib/p.js", "lib/index.js", ".hid/f.js", "..d/f.js", ".../f.js"] {
        c.file(&format!("{dir}/{f}"), "");
    }
    if nested != "-" {
        c.file(&format!("{dir}/lib/package.json"), nested);
    }
}

fn gen(t: Tier, emit: &mut dyn FnMut(Case)) {
    scale::c06(t, emit);
    words::c06(t, emit);
    for name in NAMES {
        for exports in EXPORTS {
            for nested in NESTED {
                for outer in OUTER {
                    for layout in 0..10 {
                        let mut c = Case::default();
                        c.note = format!("encapsulation name={name} exports={exports} nested={nested} outer={outer} layout={layout}");
                        let at = format!("/w/node_modules/{name}");
                        match layout {
                            0 => package(&mut c, &at, name, exports, nested),
                            // a link to a package kept elsewhere
                            1 => {
                                package(&mut c, "/store/pkg", name, exports, nested);
                                c.link(&at, "{R}/store/pkg");
                            }
                            // only the nested directories exist
                            2 => {
                                c.files(&[format!("{at}/lib/x.js"), format!("{at}/index.js"), format!("{at}/secret.js")]);
                                if *nested != "-" {
                                    c.file(&format!("{at}/lib/package.json"), nested);
                                }
                            }
                            // not installed
                            3 => drop(c.dir("/w/node_modules")),
                            // installed in an outer directory, with an unrelated nearer node_modules
                            4 => {
                                package(&mut c, &at, name, exports, nested);
                                c.dir("/w/src/node_modules/other");
                            }
                            // the package has no description file, and stands in directories that look like it
                            6 => {
                                c.files(&[format!("/w/{name}/node_modules/{name}/lib/x.js"), format!("/w/{name}/node_modules/{name}/secret.js")]);
                                package(&mut c, &format!("/w/{name}"), name, exports, nested);
                            }
                            7 => {
                                c.files(&[format!("{at}/node_modules/{name}/lib/x.js"), format!("{at}/node_modules/{name}/secret.js"), format!("{at}/node_modules/{name}/index.js")]);
                                package(&mut c, &at, name, exports, nested);
                            }
                            // .. nor does it, but node_modules (or the scope) has one
                            8 => {
                                c.files(&[format!("{at}/lib/x.js"), format!("{at}/secret.js"), format!("{at}/index.js")]);
                                package(&mut c, &crate::spec::parent(&at).unwrap(), name, exports, nested);
                            }
                            9 => {
                                c.files(&[format!("/w/src/node_modules/{name}/lib/x.js"), format!("/w/src/node_modules/{name}/index.js")]);
                                package(&mut c, "/w/src", name, exports, nested);
                                package(&mut c, &at, name, "-", nested);
                            }
                            // nearer copy without exports
                            _ => {
                                package(&mut c, &at, name, exports, nested);
                                c.files(&[format!("/w/src/node_modules/{name}/secret.js")]);
                            }
                        }
                        if *outer != "-" {
                            c.file("/w/package.json", outer);
                        }
                        c.files(&["/w/src/self.js", "/w/out.js", "/w/node_modules/out.js"]);
                        for s in SUBS {
                            c.req("/w/src", &format!("{name}{s}"));
                        }
                        c.req("/w", &format!("./node_modules/{name}/secret.js")).req("/w", &format!("{{R}}/w/node_modules/{name}"));
                        for b in [format!("/w/{name}"), format!("/w/{name}/lib"), format!("{at}/node_modules/{name}"), at.clone()] {
                            for s in ["", "/secret.js", "/lib/x.js", "/lib/p", "/pub.js", "/gone"] {
                                c.req(&b, &format!("{name}{s}"));
                            }
                        }
                        c.req(&at, "./lib").req(&at, "./secret").req(&format!("{at}/lib"), "..").req(&format!("{at}/lib"), "../secret");
                        c.req(&format!("{at}/lib"), &format!("{name}/secret.js")).req(&format!("{at}/lib"), name);
                        c.req("/w/src", "mmm").req("/w/src", "mm").req("/w/src", "@s/mm").req("/w/src", "@s").req("/w/src", "m-x/lib/x.js");
                        emit(c);
                    }
                }
            }
        }
    }
    // where a target, or a wildcard remainder, may lead
    for name in NAMES {
        for target in TARGETS {
            for shape in 0..5 {
                if t == Tier::Quick && shape == 4 && *name == "@s/m" {
                    continue;
                }
                let mut c = Case::default();
                c.note = format!("targets name={name} target={target} shape={shape}");
                let e = match shape {
                    0 => format!("\"{target}\""),
                    1 => format!("{{\".\":[\"{target}\",\"./pub.js\"],\"./p\":\"{target}\"}}"),
                    2 => format!("{{\"./p/*\":\"{}\",\"./*\":\"./lib/*\"}}", target.replace(".js", "/*").replace("//*", "/*")),
                    3 => format!("{{\"./p/\":\"{target}/\",\"./\":\"./lib/\"}}"),
                    _ => format!("{{\".\":{{\"node\":\"{target}\"}},\"./p/*\":\"./lib/*\"}}"),
                };
                package(&mut c, &format!("/w/node_modules/{name}"), name, &e, "-");
                c.files(&["/w/out.js", "/w/node_modules/out.js", "/w/node_modules/out/f.js", "/w/out/f.js", "/w/node_modules/@s/out/f.js", "/w/node_modules/@s/out.js"]);
                for r in ["", "/p", "/p/f.js", "/p/../secret.js", "/p/../../out.js", "/../secret.js", "/../../out.js", "/../pub.js", "/lib/../../../out.js",
                    "/p/./x.js", "/p//x.js", "/p//../../../out.js", "/p/x.js/../../../out.js", "/.hid/../../../out.js", "/p/.hid/../../../out.js", "/p/..d/../../../out.js", "/p/x.js"] {
                    c.req("/w", &format!("{name}{r}"));
                }
                emit(c);
            }
        }
    }
}
