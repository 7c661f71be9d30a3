//! What hun_law_grammar uses of the peginator runtime, which is not in the sandbox.
#[derive(Debug, Default)]
pub struct ParseSettings;
pub trait ParseTracer {}
#[derive(Debug)]
pub struct NoopTracer;
impl ParseTracer for NoopTracer {}
#[derive(Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "the text does not match the grammar")
    }
}
impl std::error::Error for ParseError {}
pub trait PegParserAdvanced<C>: Sized {
    fn parse_advanced<T: ParseTracer>(s: &str, settings: &ParseSettings, context: C) -> Result<Self, ParseError>;
}
