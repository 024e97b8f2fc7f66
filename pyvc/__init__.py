"""PyVC: a deductive verification-condition generator for the Python code of
/repo.  See DESIGN.md."""
