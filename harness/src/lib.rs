#![allow(dead_code, static_mut_refs)]
mod sys; mod types; mod world;
mod c01; mod appr; mod hist; mod probe; mod ledger; mod admin; mod lists; mod up; mod idx; mod misc; mod cli; mod many;
