//! use strings.inc
//! use graph.inc
//! use inlines.inc
//! use blocks.inc
