property='X01'
needs='a matched text that is a literal with surrounding blanks'
what='it is not read as one or loses its blanks'
edits=[('dustgoggles/scrape.py', '        except (\n            ValueError, SyntaxError, TypeError, MemoryError, RecursionError\n        ):\n            return result.group(1)\n', '        except (\n            ValueError, SyntaxError, TypeError, MemoryError, RecursionError\n        ):\n            return result.group(1).strip()\n')]
demo='\nfrom dustgoggles.scrape import make_scraper\nassert make_scraper("a= some text ;")("=(.*);") == " some text ", make_scraper("a= some text ;")("=(.*);")\n'
