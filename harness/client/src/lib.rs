mod h;
mod rt;
