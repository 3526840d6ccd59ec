"""Repository-specific static analysis for pymnet.  Nothing in here imports or
executes code of /repo: every decision is taken on the syntax trees of its
current source files."""
