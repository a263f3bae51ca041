#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- assumed contracts of dependencies
/// codespan_reporting::diagnostic::Severity, ordered by weight
#[derive(Clone, Copy)] pub enum Severity { Bug, Error, Warning, Note, Help }
pub open spec fn weight(s: Severity) -> int { match s { Severity::Bug => 5, Severity::Error => 4, Severity::Warning => 3, Severity::Note => 2, Severity::Help => 1 } }
impl PartialEq for Severity { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Severity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Severity) -> bool { *self == *o } }
impl PartialOrd for Severity { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Severity {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Severity) -> Option<std::cmp::Ordering> { Some(if weight(*self) < weight(*o) { std::cmp::Ordering::Less } else if weight(*self) > weight(*o) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) }
}
/// toml::Value
#[verifier::external_body] pub struct Value { x: u8 }
/// HashMap with text keys: a finite map
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct TextMap<V> { v: core::marker::PhantomData<V> }
impl<V> TextMap<V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r is Some <==> self.map().dom().contains(k@), r is Some ==> *r->0 == self.map()[k@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> self.map().dom() =~= Set::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Self) ensures final(self).map() == old(self).map().union_prefer_right(o.map()) { unimplemented!() }
}
impl<V> Clone for TextMap<V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.map() == self.map() { unimplemented!() } }
#[verifier::external_body] pub fn str_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

//@extract libs/common/src/config/project/lint.rs | struct LintConfig
//@pub
//@sub HashMap<String, toml::Value> ==> TextMap<Value>
//@end
//@extract libs/common/src/config/project/lint.rs | struct LintConfigOverride
//@pub
//@sub HashMap<String, toml::Value> ==> TextMap<Value>
//@end
//@extract libs/common/src/config/project/lint.rs | enum LintConfigFile
//@end
// ---------------------------------------------------------------- settings
/// a setting, by value
pub struct Setting { pub enabled: bool, pub severity: Severity, pub options: Map<Seq<char>, Value> }
pub open spec fn setting(c: LintConfig) -> Setting { Setting { enabled: c.enabled, severity: c.severity, options: c.options.map() } }
/// an override changes what it mentions and keeps the rest
pub open spec fn changed(o: &LintConfigOverride, c: Setting) -> Setting {
    Setting {
        enabled: match o.enabled { Some(e) => e, None => c.enabled },
        severity: match o.severity { Some(s) => s, None => c.severity },
        options: c.options.union_prefer_right(o.options.map()),
    }
}
impl LintConfigOverride {
//@extract libs/common/src/config/project/lint.rs | impl LintConfigOverride @ fn apply
//@spec
    ensures setting(r) == changed(self, setting(config))
//@end
//@extract libs/common/src/config/project/lint.rs | impl From<LintConfigFile> for LintConfigOverride @ fn from
//@sub HashMap::new\(\) ==> TextMap::new()
//@spec
    ensures match file {
        LintConfigFile::Enabled(e) => r.enabled == Some(e) && r.severity is None && r.options.map() == Map::<Seq<char>, Value>::empty(),
        LintConfigFile::Severity(s) => r.enabled is None && r.severity == Some(s) && r.options.map() == Map::<Seq<char>, Value>::empty(),
        LintConfigFile::Full(o) => r == o,
    }
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfigOverride @ fn enabled
//@spec
    ensures r == self.enabled
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfigOverride @ fn severity
//@spec
    ensures r == self.severity
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfigOverride @ fn option
//@sub toml::Value ==> Value
//@spec
    ensures r is Some <==> self.options.map().dom().contains(key@), r is Some ==> *r->0 == self.options.map()[key@]
//@end
}
impl LintConfig {
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn new
//@sub HashMap<String, toml::Value> ==> TextMap<Value>
//@spec
    ensures setting(r) == (Setting { enabled: true, severity, options: options.map() })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn error
//@sub HashMap::new\(\) ==> TextMap::new()
//@spec
    ensures setting(r) == (Setting { enabled: true, severity: Severity::Error, options: Map::empty() })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn warning
//@sub HashMap::new\(\) ==> TextMap::new()
//@spec
    ensures setting(r) == (Setting { enabled: true, severity: Severity::Warning, options: Map::empty() })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn help
//@sub HashMap::new\(\) ==> TextMap::new()
//@spec
    ensures setting(r) == (Setting { enabled: true, severity: Severity::Help, options: Map::empty() })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn with_options
//@sub HashMap<String, toml::Value> ==> TextMap<Value>
//@spec
    ensures setting(r) == (Setting { options: options.map(), ..setting(self) })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn with_enabled
//@spec
    ensures setting(r) == (Setting { enabled, ..setting(self) })
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn enabled
//@spec
    ensures r == self.enabled
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn severity
//@spec
    ensures r == self.severity
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintConfig @ fn option
//@sub toml::Value ==> Value
//@spec
    ensures r is Some <==> self.options.map().dom().contains(key@), r is Some ==> *r->0 == self.options.map()[key@]
//@end
}
//@extract libs/common/src/config/project/lint.rs | struct LintGroupConfig
//@pub
//@sub HashMap<String, ==> TextMap<
//@end
impl LintGroupConfig {
//@extract libs/common/src/config/project/lint.rs | impl LintGroupConfig @ fn config
//@sub HashMap<String, ==> TextMap<
//@spec
    ensures *r == self.config
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintGroupConfig @ fn sqf
//@sub HashMap<String, ==> TextMap<
//@spec
    ensures *r == self.sqf
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintGroupConfig @ fn stringtables
//@sub HashMap<String, ==> TextMap<
//@spec
    ensures *r == self.stringtables
//@end
//@extract libs/common/src/config/project/lint.rs | impl LintGroupConfig @ fn is_empty
//@spec
    ensures r <==> self.config.map().dom() =~= Set::empty() && self.sqf.map().dom() =~= Set::empty() && self.stringtables.map().dom() =~= Set::empty()
//@end
}

// ---------------------------------------------------------------- from project.toml and lints.toml
//@extract libs/common/src/config/project/lint.rs | struct LintSectionFile
//@sub HashMap<String, ==> TextMap<
//@end
/// an override, by value
pub struct Given { pub enabled: Option<bool>, pub severity: Option<Severity>, pub options: Map<Seq<char>, Value> }
pub open spec fn given(o: LintConfigOverride) -> Given { Given { enabled: o.enabled, severity: o.severity, options: o.options.map() } }
pub open spec fn written(f: LintConfigFile) -> Given {
    match f {
        LintConfigFile::Enabled(e) => Given { enabled: Some(e), severity: None, options: Map::empty() },
        LintConfigFile::Severity(s) => Given { enabled: None, severity: Some(s), options: Map::empty() },
        LintConfigFile::Full(o) => given(o),
    }
}
pub open spec fn section(f: Option<TextMap<LintConfigFile>>) -> Map<Seq<char>, Given> { match f { None => Map::empty(), Some(m) => Map::new(m.map().dom(), |k: Seq<char>| written(m.map()[k])) } }
pub open spec fn overrides(m: TextMap<LintConfigOverride>) -> Map<Seq<char>, Given> { Map::new(m.map().dom(), |k: Seq<char>| given(m.map()[k])) }
/// `m.unwrap_or_default().into_iter().map(|(k, v)| (k, F(v))).collect()`
#[verifier::external_body] pub fn convert_all<F: Fn(LintConfigFile) -> LintConfigOverride>(m: Option<TextMap<LintConfigFile>>, f: F) -> (r: TextMap<LintConfigOverride>)
    requires forall|v: LintConfigFile| f.requires((v,))
    ensures r.map().dom() == section(m).dom(), m is Some ==> forall|k: Seq<char>| #[trigger] r.map().dom().contains(k) ==> f.ensures((m->0.map()[k],), r.map()[k])
{ unimplemented!() }
/// the overrides of a lint section: of config, sqf and stringtables
pub struct Section { pub config: Map<Seq<char>, Given>, pub sqf: Map<Seq<char>, Given>, pub stringtables: Map<Seq<char>, Given> }
pub open spec fn section_of(f: LintSectionFile) -> Section { Section { config: section(f.config), sqf: section(f.sqf), stringtables: section(f.stringtables) } }
pub open spec fn in_force(g: LintGroupConfig) -> Section { Section { config: overrides(g.config), sqf: overrides(g.sqf), stringtables: overrides(g.stringtables) } }
impl LintGroupConfig {
//@extract libs/common/src/config/project/lint.rs | impl From<LintSectionFile> for LintGroupConfig @ fn from
//@sub (?s)file\s*\.(\w+)\s*\.unwrap_or_default\(\)\s*\.into_iter\(\)\s*\.map\(\|\(k, v\)\| \(k, v\.into\(\)\)\)\s*\.collect\(\) ==> convert_all(file.\1, |v: LintConfigFile| -> (o: LintConfigOverride) ensures given(o) == written(v) { LintConfigOverride::from(v) })
//@spec
    ensures in_force(r) == section_of(file)
//@exit
    proof { assert(overrides(tailv.config) =~= section(file.config)); assert(overrides(tailv.sqf) =~= section(file.sqf)); assert(overrides(tailv.stringtables) =~= section(file.stringtables)); }
//@end
}
// the other sections of project.toml: not read here
#[verifier::external_body] pub struct VersionConfig { x: u8 }
#[verifier::external_body] pub struct VersionSectionFile { x: u8 }
#[verifier::external_body] pub struct FilesConfig { x: u8 }
#[verifier::external_body] pub struct FilesSectionFile { x: u8 }
#[verifier::external_body] pub struct HemttConfig { x: u8 }
#[verifier::external_body] pub struct HemttSectionFile { x: u8 }
#[verifier::external_body] pub struct SigningConfig { x: u8 }
#[verifier::external_body] pub struct SigningSectionFile { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct TextMapOf<V> { v: core::marker::PhantomData<V> }
pub enum PrefixError { Empty, Other }
pub enum Error { Prefix(PrefixError), ConfigInvalid(String), LintsConfigConflict, Other(u8) }
#[verifier::external_body] pub fn hemtt_config(f: HemttSectionFile, path: &PathBuf, prefix: &String) -> (r: Result<HemttConfig, Error>) { unimplemented!() }
#[verifier::external_body] pub fn version_config(f: VersionSectionFile) -> (r: Result<VersionConfig, Error>) { unimplemented!() }
#[verifier::external_body] pub fn files_config(f: FilesSectionFile) -> (r: FilesConfig) { unimplemented!() }
#[verifier::external_body] pub fn signing_config(f: SigningSectionFile) -> (r: SigningConfig) { unimplemented!() }
/// std::path::PathBuf and the files as they are while this runs
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub uninterp spec fn beside(path: PathBuf, name: Seq<char>) -> PathBuf;
pub uninterp spec fn present(path: PathBuf) -> bool;
pub uninterp spec fn content(path: PathBuf) -> Option<Seq<char>>;
impl PathBuf {
    #[verifier::external_body] pub fn set_file_name(&mut self, name: &str) ensures *final(self) == beside(*old(self), name@) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == present(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn read_text(path: &PathBuf) -> (r: Result<String, Error>) ensures r is Ok <==> content(*path) is Some, r is Ok ==> r->Ok_0@ == content(*path)->0 { unimplemented!() }
/// toml::from_str::<LintSectionFile>, by what its result stands for
pub uninterp spec fn lint_section(text: Seq<char>) -> Option<Section>;
#[verifier::external_body] pub fn read_section(text: &String) -> (r: Result<LintSectionFile, Error>) ensures r is Ok <==> lint_section(text@) is Some, r is Ok ==> section_of(r->Ok_0) == lint_section(text@)->0 { unimplemented!() }
#[verifier::external_body] pub fn has(text: &String, part: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn text_empty(s: &String) -> (r: bool) ensures r <==> s@.len() == 0 { unimplemented!() }
//@extract libs/common/src/config/project/mod.rs | struct ProjectFile
//@pub
//@sub HashMap<String, String> ==> TextMapOf<String>
//@sub (version|files|lint|hemtt|signing):: ==> 
//@end
//@extract libs/common/src/config/project/mod.rs | struct ProjectConfig
//@pub
//@sub HashMap<String, String> ==> TextMapOf<String>
//@sub (version|files|lint|hemtt|signing):: ==> 
//@end
pub open spec fn nothing(s: Section) -> bool { s.config =~= Map::empty() && s.sqf =~= Map::empty() && s.stringtables =~= Map::empty() }
/// the lint settings a project has: those of project.toml, or those of a lints.toml beside it; both is an error, none is dropped
pub open spec fn lint_settings(file: ProjectFile) -> Option<Section> {
    let p = beside(file.meta_path, "lints.toml"@);
    if !present(p) { Some(section_of(file.lints)) }
    else if !nothing(section_of(file.lints)) || content(p) is None { None }
    else { lint_section(content(p)->0) }
}
impl ProjectConfig {
//@extract libs/common/src/config/project/mod.rs | impl TryFrom<ProjectFile> for ProjectConfig @ fn try_from
//@sub Self::Error ==> Error
//@sub crate::prefix::Error ==> PrefixError
//@sub file\.prefix\.is_empty\(\) ==> text_empty(&file.prefix)
//@sub file\.hemtt\.into_config\(&file\.meta_path, &file\.prefix\) ==> hemtt_config(file.hemtt, &file.meta_path, &file.prefix)
//@sub file\.version\.try_into\(\) ==> version_config(file.version)
//@sub file\.files\.into\(\) ==> files_config(file.files)
//@sub file\.lints\.into\(\) ==> LintGroupConfig::from(file.lints)
//@sub file\.signing\.into\(\) ==> signing_config(file.signing)
//@sub std::fs::read_to_string\(&lints_path\) ==> read_text(&lints_path)
//@sub lints_source\.contains\("\[lints\."\) ==> has(&lints_source, "[lints.")
//@sub (?s)toml::from_str::<lint::LintSectionFile>\(&lints_source\)\?\s*\.into\(\) ==> LintGroupConfig::from(read_section(&lints_source)?)
//@sub "Configs in `lints\.toml` do not need to be under `\[lints\.\*\]`\."\.to_string\(\) ==> String::new()
//@spec
    ensures r is Ok ==> lint_settings(file) == Some(in_force(r->Ok_0.lints)) && file.prefix@.len() > 0 && r->Ok_0.prefix == file.prefix && r->Ok_0.name == file.name && r->Ok_0.mainprefix == file.mainprefix && r->Ok_0.properties == file.properties
//@before if ret\.lints\.is_empty
    proof { assert(section_of(file.lints) == in_force(ret.lints)); 
        assert(overrides(ret.lints.config).dom() =~= ret.lints.config.map().dom()); assert(overrides(ret.lints.sqf).dom() =~= ret.lints.sqf.map().dom()); assert(overrides(ret.lints.stringtables).dom() =~= ret.lints.stringtables.map().dom()); }
//@end
//@extract libs/common/src/config/project/mod.rs | impl ProjectConfig @ fn lints
//@sub lint:: ==> 
//@spec
    ensures *r == self.lints
//@end
}
// ---------------------------------------------------------------- the lints themselves (any lint whatever)
#[verifier::external_body] pub struct Processed { x: u8 }
#[verifier::external_body] pub struct Target { x: u8 }
#[verifier::external_body] pub struct Code { x: u8 }
pub type Codes = Vec<Code>;
/// what a run is about
pub struct About { pub project: Option<ProjectConfig>, pub processed: Option<Processed>, pub target: Target }
pub open spec fn about(p: Option<&ProjectConfig>, x: Option<&Processed>, t: &Target) -> About { About { project: match p { None => None, Some(v) => Some(*v) }, processed: match x { None => None, Some(v) => Some(*v) }, target: *t } }
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct Runner<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct GroupRunner<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct Lint<D> { d: core::marker::PhantomData<D> }
/// what a runner reports with a setting
pub uninterp spec fn reports<D>(r: Runner<D>, a: About, s: Setting, d: D) -> Seq<Code>;
pub uninterp spec fn group_reports<D>(r: GroupRunner<D>, a: About, s: Map<Seq<char>, Setting>, d: D) -> Seq<Code>;
impl<D> Lint<D> {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn default(&self) -> Setting;
    pub uninterp spec fn least(&self) -> Severity;
    pub uninterp spec fn all(&self) -> Seq<Runner<D>>;
    #[verifier::external_body] pub fn ident(&self) -> (r: &'static str) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body] pub fn default_config(&self) -> (r: LintConfig) ensures setting(r) == self.default() { unimplemented!() }
    #[verifier::external_body] pub fn minimum_severity(&self) -> (r: Severity) ensures r == self.least() { unimplemented!() }
    #[verifier::external_body] pub fn runners(&self) -> (r: Vec<Runner<D>>) ensures r@ == self.all() { unimplemented!() }
}
impl<D> Clone for Lint<D> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn all_reports<D>(r: Seq<Runner<D>>, a: About, s: Setting, d: D) -> Seq<Code>
    decreases r.len()
{ if r.len() == 0 { Seq::empty() } else { all_reports(r.drop_last(), a, s, d) + reports(r.last(), a, s, d) } }
/// `runners.iter().flat_map(|runner| runner.run(..)).collect::<Codes>()`
#[verifier::external_body] pub fn run_all<D>(v: &Vec<Runner<D>>, project: Option<&ProjectConfig>, config: &LintConfig, processed: Option<&Processed>, target: &Target, data: &D) -> (r: Codes)
    ensures r@ == all_reports(v@, about(project, processed, target), setting(*config), *data)
{ unimplemented!() }
pub open spec fn settings(m: Map<Seq<char>, LintConfig>) -> Map<Seq<char>, Setting> { Map::new(m.dom(), |k: Seq<char>| setting(m[k])) }
impl<D> GroupRunner<D> {
    #[verifier::external_body] pub fn run(&self, project: Option<&ProjectConfig>, config: TextMap<LintConfig>, processed: Option<&Processed>, target: &Target, data: &D) -> (r: Codes)
        ensures r@ == group_reports(*self, about(project, processed, target), settings(config.map()), *data)
    { unimplemented!() }
}
/// one of `lints` has the name `name`
#[verifier::external_body] pub fn any_named<D>(lints: &Vec<Lint<D>>, name: &str) -> (r: bool) ensures r <==> (exists|i: int| 0 <= i < lints@.len() && #[trigger] lints@[i].name() == name@) { unimplemented!() }
#[verifier::external_body] pub fn complaint() -> Code { unimplemented!() }
#[verifier::external_body] pub fn put_all<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }

//@extract libs/workspace/src/lint/mod.rs | struct LintManager
//@pub
//@sub Vec<\(Lints<D>, Box<dyn AnyLintGroupRunner<D>>\)> ==> Vec<(Vec<Lint<D>>, GroupRunner<D>)>
//@sub Lints<D> ==> Vec<Lint<D>>
//@sub HashMap<String, ==> TextMap<
//@attr #[verifier::reject_recursive_types(D)]
//@end
/// the setting a lint runs with: its own, with the project's override for its name
pub open spec fn used<D>(c: Map<Seq<char>, LintConfigOverride>, l: Lint<D>) -> Setting { if c.dom().contains(l.name()) { changed(&c[l.name()], l.default()) } else { l.default() } }
/// the project's override for this lint is not allowed
pub open spec fn refused<D>(c: Map<Seq<char>, LintConfigOverride>, l: Lint<D>) -> bool {
    c.dom().contains(l.name()) && (weight(used(c, l).severity) < weight(l.least()) || !used(c, l).enabled && l.least() == Severity::Error)
}
pub open spec fn known<D>(ls: Seq<Lint<D>>, l: Lint<D>) -> bool { exists|i: int| 0 <= i < ls.len() && #[trigger] ls[i].name() == l.name() }
pub open spec fn acceptable<D>(m: &LintManager<D>, ls: Seq<Lint<D>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> !refused(m.configs.map(), #[trigger] ls[i]) && !known(m.lints@, ls[i]) }
/// what the single lints report: nothing from a disabled one
pub open spec fn single_reports<D>(c: Map<Seq<char>, LintConfigOverride>, ls: Seq<Lint<D>>, a: About, d: D) -> Seq<Code>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { single_reports(c, ls.drop_last(), a, d) + (if used(c, ls.last()).enabled { all_reports(ls.last().all(), a, used(c, ls.last()), d) } else { Seq::empty() }) } }
/// the settings of the enabled lints of a group
pub open spec fn group_settings<D>(c: Map<Seq<char>, LintConfigOverride>, ls: Seq<Lint<D>>) -> Map<Seq<char>, Setting>
    decreases ls.len()
{ if ls.len() == 0 { Map::empty() } else { let m = group_settings(c, ls.drop_last()); if used(c, ls.last()).enabled { m.insert(ls.last().name(), used(c, ls.last())) } else { m } } }
pub open spec fn one_group<D>(c: Map<Seq<char>, LintConfigOverride>, g: (Vec<Lint<D>>, GroupRunner<D>), a: About, d: D) -> Seq<Code> {
    let m = group_settings(c, g.0@);
    if m =~= Map::empty() { Seq::empty() } else { group_reports(g.1, a, m, d) }
}
pub open spec fn all_groups<D>(c: Map<Seq<char>, LintConfigOverride>, gs: Seq<(Vec<Lint<D>>, GroupRunner<D>)>, a: About, d: D) -> Seq<Code>
    decreases gs.len()
{ if gs.len() == 0 { Seq::empty() } else { all_groups(c, gs.drop_last(), a, d) + one_group(c, gs.last(), a, d) } }

impl<D> LintManager<D> {
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn new
//@sub HashMap<String, ==> TextMap<
//@spec
    ensures r.lints@.len() == 0, r.groups@.len() == 0, r.configs == configs
//@end
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn check
//@sub &Lints<D> ==> &Vec<Lint<D>>
//@sub (?s)self\.lints\.iter\(\)\.any\(\|l\| l\.ident\(\) == lint\.ident\(\)\) ==> any_named(&self.lints, lint.ident())
//@sub (?s)Arc::new\(InvalidLintConfig \{\s*message: format!\((?:[^()]|\([^()]*\))*\),\s*\}\) ==> complaint()
//@spec
    ensures r is Ok <==> acceptable(self, lints@)
//@sub for lint in lints \{ ==> for lint in &*lints {
//@index 0
//@loop 0 for
    invariant vs0@ == lints@, 0 <= ix0 <= vs0@.len(),
        errors@.len() == 0 <==> (forall|i: int| 0 <= i < ix0 ==> !refused(self.configs.map(), #[trigger] lints@[i]) && !known(self.lints@, lints@[i])),
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost e0 = errors@;
//@loopend 0
    proof { assert(*lint == lints@[ix0 - 1]); assert((errors@.len() == 0) <==> (e0.len() == 0 && !refused(self.configs.map(), *lint) && !known(self.lints@, *lint))); }
//@sub errors\.is_empty\(\) ==> errors.len() == 0
//@end
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn push
//@sub Arc<Box<dyn Lint<D>>> ==> Lint<D>
//@sub Lints<D> ==> Vec<Lint<D>>
//@sub self\.lints\.extend\(lints\) ==> put_all(&mut self.lints, lints)
//@spec
    ensures r is Ok <==> !refused(old(self).configs.map(), lint) && !known(old(self).lints@, lint), final(self).groups == old(self).groups, final(self).configs == old(self).configs,
        final(self).lints@ == if r is Ok { old(self).lints@.push(lint) } else { old(self).lints@ },
//@before self\.check\(
    proof { assert(lints@.len() == 1 && lints@[0] == lint); assert(acceptable(self, lints@) <==> !refused(self.configs.map(), lint) && !known(self.lints@, lint)); }
//@exit
    proof { assert(self.lints@ =~= old(self).lints@.push(lint)); }
//@end
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn extend
//@sub Lints<D> ==> Vec<Lint<D>>
//@sub self\.lints\.extend\(lints\) ==> put_all(&mut self.lints, lints)
//@spec
    ensures r is Ok <==> acceptable(old(self), lints@), final(self).groups == old(self).groups, final(self).configs == old(self).configs,
        final(self).lints@ == if r is Ok { old(self).lints@ + lints@ } else { old(self).lints@ },
//@end
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn push_group
//@sub Lints<D> ==> Vec<Lint<D>>
//@sub Box<dyn AnyLintGroupRunner<D>> ==> GroupRunner<D>
//@spec
    ensures r is Ok <==> acceptable(old(self), lints@), final(self).lints == old(self).lints, final(self).configs == old(self).configs,
        final(self).groups@ == if r is Ok { old(self).groups@.push((lints, runner)) } else { old(self).groups@ },
//@end
//@extract libs/workspace/src/lint/mod.rs | impl LintManager<D> @ fn run
//@sub &dyn std::any::Any ==> &Target
//@sub (?s)self\s*\.configs\s*\.get\(lint\.ident\(\)\)\s*\.cloned\(\)\s*\.map_or_else\(\|\| (lint\.default_config\(\)), \|c\| (c\.apply\(lint\.default_config\(\)\))\) ==> match self.configs.get(lint.ident()) { None => \1, Some(c) => \2 }
//@sub (?s)lint\.runners\(\)\s*\.iter\(\)\s*\.flat_map\(\|runner\| runner\.run\(project, &config, processed, target, data\)\)\s*\.collect::<Codes>\(\) ==> run_all(&lint.runners(), project, &config, processed, target, data)
//@sub (?s)self\.lints\s*\.iter\(\)\s*\.flat_map\(\|lint\| (\{.*?\n            \})\)\s*\.chain\(self\.groups\.iter\(\)\.flat_map\(\|\(lints, runner\)\| (\{.*\})\)\)\s*\.collect\(\) ==> let mut all: Codes = Vec::new(); for lint in &self.lints { let f = |lint: &Lint<D>| -> (r: Codes) ensures r@ == (if used(self.configs.map(), *lint).enabled { all_reports(lint.all(), about(project, processed, target), used(self.configs.map(), *lint), *data) } else { Seq::empty() }) \1; put_all(&mut all, f(lint)); } for group in &self.groups { let f = |lints: &Vec<Lint<D>>, runner: &GroupRunner<D>| -> (r: Codes) ensures r@ == one_group(self.configs.map(), (*lints, *runner), about(project, processed, target), *data) \2; put_all(&mut all, f(&group.0, &group.1)); } all
//@sub for lint in lints \{ ==> for lint in &*lints {
//@sub HashMap::new\(\) ==> TextMap::new()
//@sub lint\.ident\(\)\.to_string\(\) ==> str_string(lint.ident())
//@spec
    ensures r@ == single_reports(self.configs.map(), self.lints@, about(project, processed, target), *data) + all_groups(self.configs.map(), self.groups@, about(project, processed, target), *data)
//@index 0
//@loop 0 for
    invariant vs0@ == self.lints@, 0 <= ix0 <= vs0@.len(), all@ == single_reports(self.configs.map(), vs0@.take(ix0 as int), about(project, processed, target), *data)
    decreases vs0@.len() - ix0
//@loopstart 0
    proof { let p = vs0@.take(ix0 as int); assert(p.drop_last() =~= vs0@.take(ix0 - 1)); assert(p.last() == *lint); }
//@index 1
//@loop 1 for
    invariant vs1@ == self.groups@, 0 <= ix1 <= vs1@.len(), all@ == single_reports(self.configs.map(), self.lints@, about(project, processed, target), *data) + all_groups(self.configs.map(), vs1@.take(ix1 as int), about(project, processed, target), *data)
    decreases vs1@.len() - ix1
//@loopinit 1
    proof { assert(self.lints@.take(self.lints@.len() as int) =~= self.lints@); assert(all@ + Seq::<Code>::empty() =~= all@); }
//@loopstart 1
    let ghost all0 = all@;
    proof { let p = vs1@.take(ix1 as int); assert(p.drop_last() =~= vs1@.take(ix1 - 1)); assert(p.last() == *group); }
//@loopend 1
    proof { assert(all@ =~= single_reports(self.configs.map(), self.lints@, about(project, processed, target), *data) + all_groups(self.configs.map(), vs1@.take(ix1 as int), about(project, processed, target), *data)); }
//@index 2
//@loop 2 for
    invariant vs2@ == lints@, 0 <= ix2 <= vs2@.len(), settings(configs.map()) =~= group_settings(self.configs.map(), vs2@.take(ix2 as int))
    decreases vs2@.len() - ix2
//@loopstart 2
    let ghost m0 = configs.map();
    proof { let p = vs2@.take(ix2 as int); assert(p.drop_last() =~= vs2@.take(ix2 - 1)); assert(p.last() == *lint); }
//@before if configs\.is_empty\(\)
    proof { assert(vs2@.take(vs2@.len() as int) =~= vs2@); assert(settings(configs.map()).dom() =~= configs.map().dom()); }
//@exit
    proof { assert(self.groups@.take(self.groups@.len() as int) =~= self.groups@); }
//@end
}
/// An override for one lint has no effect on another.
proof fn theorem_independent<D>(c: Map<Seq<char>, LintConfigOverride>, o: LintConfigOverride, l: Lint<D>, name: Seq<char>)
    requires name != l.name()
    ensures used(c.insert(name, o), l) == used(c, l), refused(c.insert(name, o), l) == refused(c, l)
{}
/// An override that mentions nothing changes nothing.
proof fn theorem_nothing(o: &LintConfigOverride, s: Setting)
    requires o.enabled is None, o.severity is None, o.options.map() == Map::<Seq<char>, Value>::empty()
    ensures changed(o, s) == s
{ assert(s.options.union_prefer_right(o.options.map()) =~= s.options); }
}
fn main() {}
