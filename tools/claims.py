# Reasons for properties that are not claimed, and per-property notes for MANIFEST.json.
NA = {
}
NOTES = {
"C92": "The generator is run natively for each of 49 tables (every column type alone, all together, none, many, names that collide with names in the generated code), what it writes is compiled unchanged, and the compiled functions are then encoded and decided for all cell values; for arbitrary names the generator itself is executed symbolically and its text is compared with the text for other names.",
}
