// Formats for ajv: none are needed, the verdict is the specification's.
export default function addFormats(ajv: any) { return ajv; }
