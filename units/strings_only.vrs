//! use strings.inc
