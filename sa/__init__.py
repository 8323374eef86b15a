"""Static analysis of evotorch's source: an abstract interpreter over the `ast` of the package."""
