// Stands for node:fs/promises.
export const files = { read: undefined, calls: [] };
export async function readFile(path, options) { files.calls.push([path, options]); return files.read(path); }
