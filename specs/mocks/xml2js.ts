// xml2js: answers what the specification decides.
export const control: any = { parse: undefined };
export const parseString = (text: any, done: any) => done(null, control.parse(text));
