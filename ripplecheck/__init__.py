"""ripplecheck: static analysis of the ripplegw sources (never imports or runs them)."""
