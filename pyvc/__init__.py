"""PyVC: contract-based deductive verification of the real Python source in /repo."""
