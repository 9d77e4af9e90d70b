CLAIMS = {}
NA = {}
