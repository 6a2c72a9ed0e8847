// ============================================================================================
// Assumed contracts on graph_process_manager_core/_loggers (they keep what they are given) and on str::parse
// ============================================================================================
pub uninterp spec fn udec(n: u32) -> Seq<char>;
impl VxShow for u32 { open spec fn show(&self) -> Seq<char> { udec(*self) } }
pub trait VxNum: Sized { spec fn num(s: Seq<char>) -> Option<Self>; }
impl VxNum for u32 { open spec fn num(s: Seq<char>) -> Option<u32> { pu32(s) } }
impl VxNum for i32 { open spec fn num(s: Seq<char>) -> Option<i32> { pi32(s) } }
pub trait VxParse {
    spec fn ptxt(&self) -> Seq<char>;
    fn vx_parse<T: VxNum>(&self) -> (r: Result<T, PErr>)
        ensures T::num(self.ptxt()) is Some ==> r == Ok::<T, PErr>(T::num(self.ptxt())->0),
    ;
}
impl VxParse for String {
    open spec fn ptxt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_parse<T: VxNum>(&self) -> (r: Result<T, PErr>) { unimplemented!() }
}
impl VxParse for str {
    open spec fn ptxt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_parse<T: VxNum>(&self) -> (r: Result<T, PErr>) { unimplemented!() }
}
/// Box::new(x), as a trait object
pub trait VxDyn<D: ?Sized>: Sized {
    spec fn same(self, d: Box<D>) -> bool;
    fn vx_dyn(self) -> (r: Box<D>) ensures self.same(r);
}
pub fn vx_dyn<D: ?Sized, T: VxDyn<D>>(x: T) -> (r: Box<D>)
    ensures x.same(r),
{ x.vx_dyn() }

pub enum QueueSearchStrategy { BFS, DFS, HCS }
pub enum GraphVizOutputFormat { png, svg }
pub enum GraphVizProcessLoggerLayout { Vertical, Horizontal }
pub struct GenericProcessPriorities<P> { pub specific: P, pub randomize: bool }
impl<P> GenericProcessPriorities<P> {
    pub fn new(specific: P, randomize: bool) -> (r: Self)
        ensures r.specific == specific, r.randomize == randomize,
    { GenericProcessPriorities { specific, randomize } }
}
pub trait AbstractProcessConfiguration { }
pub trait GraphVizProcessDrawer<C> { }
pub trait StepsTraceProcessPrinter<C, O> { }
pub trait AbstractProcessLogger<C> { spec fn lv(&self) -> LV; }
pub trait AbstractFilter<A, B> { spec fn fv(&self) -> (int, u32); }
pub struct GenericGraphVizLogger<C> { pub drawer: Box<InteractionProcessDrawer>, pub output_format: GraphVizOutputFormat, pub layout: GraphVizProcessLoggerLayout, pub display_legend: bool,
    pub parent_folder: String, pub output_file_name: String, pub c: core::marker::PhantomData<C> }
impl<C> GenericGraphVizLogger<C> {
    #[verifier::external_body]
    pub fn new(drawer: Box<InteractionProcessDrawer>, output_format: GraphVizOutputFormat, layout: GraphVizProcessLoggerLayout, display_legend: bool, parent_folder: String, output_file_name: String) -> (r: Self)
        ensures r.drawer == drawer, r.output_format == output_format, r.layout == layout, r.display_legend == display_legend, r.parent_folder == parent_folder, r.output_file_name == output_file_name,
    { unimplemented!() }
    pub open spec fn gv(&self) -> GL {
        GL { png: self.output_format is png, horiz: self.layout is Horizontal, sd: self.drawer.int_repr_sd, tt: self.drawer.int_repr_tt, legend: self.display_legend,
            folder: self.parent_folder@, file: self.output_file_name@ }
    }
}
pub struct GenericStepsTraceLogger<C, O> { pub printer: Box<MultiTraceProcessPrinter>, pub avoid_duplicates: bool, pub prefix: String, pub file_extension: String, pub parent_folder: String,
    pub c: core::marker::PhantomData<C>, pub o: core::marker::PhantomData<O> }
impl<C, O> GenericStepsTraceLogger<C, O> {
    #[verifier::external_body]
    pub fn new(printer: Box<MultiTraceProcessPrinter>, avoid_duplicates: bool, prefix: String, file_extension: String, parent_folder: String) -> (r: Self)
        ensures r.printer == printer, r.avoid_duplicates == avoid_duplicates, r.prefix == prefix, r.file_extension == file_extension, r.parent_folder == parent_folder,
    { unimplemented!() }
    pub open spec fn tv(&self) -> TL {
        TL { gen: self.printer.tracegen, locs: cvw(self.printer.partition), nodup: self.avoid_duplicates, folder: self.parent_folder@, prefix: self.prefix@ }
    }
}
