//! use strings.inc
//! use graph.inc
//! use parsing.inc
//! use inlines.inc
//! use blocks.inc
//! use parser.inc
