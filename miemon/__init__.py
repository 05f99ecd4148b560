"""miemon: runtime monitors for pymiediff (see /verif/DESIGN.md)."""
