"""Static analyser for the mud code base (value graphs in tensor normal form)."""
