//! # Rules of the parser that come ahead of the more general ones.
//! types src/parser.rs Parser
//! drop-field Parser origin_directory
//! method iter recvend=inline_stack => @drop
//! method rposition => sh_rposition &
//! method position recvend=inline_stack.iter() => sh_position &
//! method any recvend=inline_stack.iter() => sh_any &
//! method filter in=Parser::parse_inline_span recv=rposition => sh_filter_idx
//! method filter recvend=back_mut() => sh_filter_mut
//! method insert recvend=inline_stack => sh_vd_insert &mut
//! method remove recvend=inline_stack => sh_vd_remove &mut
//! method split_off recvend=inline_stack => sh_vd_split_off &mut
//! method into recvend=temp_stack => sh_vec_into
//! method take => sh_take &mut
//! eq text=*other => sh_inline_eq
//! method is_empty recvend=inline_stack => sh_vd_is_empty &
//! method saturating_add => sh_i8_sat
//! method parse in=Parser::parse_level_offset => sh_parse_i8 &
//! method len in=Parser::parse_attribute_reference => sh_blen_max &
//! slice attribute_ref => sh_tslice &
//! eq text=open_line => sh_loc_eq
//! method iter in=Parser::close_delimited_block => @drop
//! method any in=Parser::close_delimited_block => sh_any &
//! method splitn => sh_splitn &
//! method skip recv=splitn => sh_parts_skip
//! method next in=Parser::parse_attribute => sh_parts_next &mut
//! method starts_with in=Parser::parse_level_offset => sh_starts_any &
//! method front recvend=inline_stack => sh_vd_front &
