"""Static analyser for KerrGeoPy: gated value graphs + algebraic value numbering."""
