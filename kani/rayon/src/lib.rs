//! placeholder, see DESIGN.md
