"""Static analyser for atlas_doc_parser (stdlib only, never imports the code under analysis)."""
