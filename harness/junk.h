{0,0,99,"\xaf\x3c\x6a\x5b\x20\x4b\xb2\x22\x67\xb4\xa0\x79\x60\x75\x8b\x27\x59\xe8\x86\x2f\x2f\x16\xa9\x11\xc0\x97\x39\xb1\xb6\xd3\xea\x9a\x23\x19\x6b\xa0\xa5\x6f\x02\xd8\xc6\xc3\x25\x26\xe1\xd5\xbb\x9c\x0f\x7a\x7d\xaa\xbe\xb2\x91\x6b\x1d\xf4\x8a\xf7\x36\x99\x9d\x41\x64\x3d\xa2\x6e\x23\x7f\x8c\x83\xdb\x1b\xed\x8b\x4f\x08\x15\x81\x1b\xa2\xf3\x7f\xd1\xb7\x9f\x8c\x88\x7b\x18\xd7\xa8\x61\xce\x1c\x2f\xbc\x41"},
{0,1,91,"\x66\x43\x7d\xf5\xbd\xc0\xff\x6c\xf5\xf0\x45\x58\x63\xc0\x95\x14\x85\x66\x8d\x81\xd6\x90\xf3\xbb\x9a\x08\xee\x59\x37\x24\xd8\xa2\x04\x42\xbc\x19\x7e\x6e\x50\x58\xe2\x34\xe3\x63\xd1\x5c\xaa\x7f\xf3\x70\x09\xba\x09\x4b\x78\x22\x31\x0b\x1e\x19\x6f\x80\x3c\xe1\x34\xfc\x1c\xac\x59\x6a\xa3\x96\x81\x85\xbb\x09\x01\xe1\xf7\x98\x22\xb9\x43\xb9\x7c\x11\xe5\xe8\x13\x44\x04"},
{0,2,189,"\x7a\x52\x97\x2d\x4a\x93\x8f\x51\xf4\xc8\x27\x8c\x53\xa2\xa9\x92\x21\xfc\x45\x2f\xe5\x1d\x7c\x63\x6a\xa9\x53\x19\x16\xf7\xcf\xb0\xe8\x79\xfa\x82\x64\xf3\x5c\x2c\xbc\x72\x6d\x19\x58\xea\x97\x50\x1d\x27\xc2\x48\x74\xfe\xdb\x31\x18\x22\x9b\x73\x7c\x57\xd5\x46\x26\xae\x4d\x35\x47\x0a\x3d\x50\x07\xdf\xc9\x6d\xc0\x20\x4f\x83\xec\xe5\x34\xd2\x7f\x56\x80\xcb\x95\x75\x11\x4c\x7a\x03\x4e\xb4\x22\x17\x9e\x0c\xb5\x3f\x21\x8d\xb7\x5c\xd8\x32\x33\x15\x91\x1f\xec\x90\xf2\xc5\x87\x72\x48\xc6\xf0\x38\x4e\x2e\xd6\x2f\x04\x74\x83\x3b\xd9\x8a\x7b\xd6\x96\x30\x99\x1a\x9e\x59\x34\x71\xb6\x26\x29\x87\x15\x5b\x46\x12\x33\x5a\xf1\x08\x48\x16\x51\x75\xcc\x5a\x02\xb3\xd1\xfa\x58\xfc\x2d\xbf\xb3\x34\xb1\x68\x3f\xa8\x4e\xbe\xb8\x6f\x8f\xe5\xb9\xce\x7d\x9d\x66\x8f\x38\xa7\x2a"},
{0,3,136,"\x2e\x91\xd5\xe8\x99\x2a\xce\x5a\x19\x1c\x81\xff\x4b\xb9\x2f\x12\xe9\x1c\xfe\x6a\x50\xaa\xcf\xa3\x1a\x15\xee\x4c\x1b\xaa\xaf\xad\xa3\xf0\x3a\xd1\xfc\x4d\x63\xd9\x40\xf5\xf2\x58\x46\x20\x78\xe3\x9b\x66\x21\xe5\xbd\x99\x0e\xdd\xc6\xaf\x8c\x21\x80\x41\x36\x7c\x28\x4d\xcd\x14\xc9\x03\xfb\xb1\x4e\x76\x4f\x03\x3d\x88\x19\xbe\x2e\x8b\x37\x84\xd8\x6e\xfd\x05\x78\x01\x99\xa0\x88\xa5\x53\x6e\x8c\xdb\xef\xd5\x52\x5d\x8b\x4c\x31\xc5\x2c\x54\x92\x5c\xea\x61\x01\x4b\xa5\xc0\xb0\x05\xd4\xe4\x44\xa1\x25\x84\xdf\x59\xcd\x2b\xd2\xdf\x85\xad\x97\x63\x6d\x5b"},
{0,4,131,"\xc5\x9d\xa1\xef\x8d\x75\xe0\xae\xa9\xba\x3a\x6f\x52\xcf\x8f\x34\xab\xe6\x54\x75\x91\x07\x67\xb5\xa3\x49\xcd\xf2\x46\xe1\x37\xe4\x35\x46\x1b\x52\x66\x84\x70\x39\xc3\x63\x88\xdd\x7f\xd2\xd2\x1a\xbb\x94\x8f\x4f\x99\x97\xeb\x1f\x00\x66\xb2\xe7\xb9\x09\x30\xd5\xb4\x73\x9f\xaf\xf9\x7d\x37\xa6\xf2\x3c\xa8\xe5\x19\x95\xc6\xba\x14\xdb\x15\x9b\x30\xe1\x26\x72\x2f\x7f\x72\x1d\x30\xcb\x18\x78\x47\xaa\x59\xee\xaf\x83\x08\xef\x50\x42\xf1\xdf\xc4\xd1\x5d\x52\x1c\x77\xef\xbc\x48\xa1\x91\x8d\x03\x87\x0c\xad\x71\xbd\x27\x57\xcf\xd1\xf4"},
{0,5,152,"\x4d\x9f\xad\x8f\xbe\xa0\x2f\x65\x5f\xb1\x53\xa9\x6d\x17\xe9\xba\xcb\xce\x55\x0a\xa4\x25\x94\x86\x5f\x03\xe4\x02\xd0\xd7\xc1\xdb\x50\x92\xc7\x04\xce\xe4\x45\x62\x88\xa7\xd1\x69\xf4\x44\x16\x19\x3d\x8b\xc3\x09\xb8\xf5\x40\xc3\x84\xeb\x49\xaa\xb6\x71\xb8\x21\xb1\xc2\x57\x55\x88\x8f\xaa\x94\x59\xa6\x7e\x17\xba\xac\xfa\x58\xc8\x3e\xf2\xa1\xcc\x85\xd2\x0a\x19\xd5\xf1\x44\xff\x85\x4f\xc8\x3b\x70\xdf\x0d\x98\xea\x72\x21\x5f\x9f\x62\x07\x31\x77\x17\x0f\x98\xe4\xc8\x5a\x13\xea\x13\xb8\xc9\x88\x5e\x97\xbc\x60\x51\xe0\x41\xdc\xf3\x14\x1f\x07\x85\x03\x9a\x6d\x1b\x0a\x96\xca\xfa\x78\x91\xd9\x81\x45\xbc\x4d\xb2\x6b"},
{0,6,180,"\x60\x72\x7c\x07\xad\x5a\x95\xf3\xb9\x80\x2a\x20\x9d\x5d\x60\x98\x0b\x83\xc8\xe8\x1c\xaa\xfa\x7d\x19\x5e\x0e\x4f\x02\xa2\x48\x94\x18\x54\xb4\x79\x90\x20\x5d\xf1\x62\x1d\xbd\x8b\x8c\x26\xb4\xd0\x5a\x5c\xb7\x2a\x8e\x2a\x64\x7f\x28\xc5\x55\xbf\xe4\x54\xc8\x51\x59\xcf\xce\x94\x4a\x18\xdd\x20\x0e\xbf\xb6\xb9\xa0\xf2\x68\xc8\xa5\xab\x8d\xab\x81\x79\x1d\xa9\x30\x41\x62\x64\x61\x27\x10\x74\xee\xf7\x90\xd1\x94\x44\x93\x05\x78\x33\x8f\x7c\x08\xac\x2a\x7a\xfb\xf8\x57\xd2\x1c\x1a\x65\x07\x25\xa5\x9e\xb4\xb9\x15\xd9\x54\x65\x1a\x21\x04\xca\xa0\x4a\x3e\xeb\x63\xb3\xe7\x88\xc5\x93\x19\xe3\x55\xa3\x00\xee\xf6\x00\xc9\xe8\x8f\x57\x90\x95\xab\x6c\xb2\x28\xd6\x4a\x20\x47\xc3\xaa\xdb\x92\x6d\x47\x4c\x91\xaa\xac\x13\x8a\x15\xf0\xe1"},
{1,0,21,"\x8e\xd8\x05\x00\x18\x94\xa1\x16\x00\xb0\xd5\x0f\xd0\x58\xe2\x76\x68\x81\x94\x20\x2b"},
{1,1,48,"\x43\x02\xe3\xf8\x4f\x72\x02\x05\x35\x54\x14\xf3\x41\x64\xe8\x7e\xd6\x46\x25\x0a\xf2\xf1\xf8\x33\x5a\x2a\xb7\xab\x79\x90\x65\x91\x29\x6f\x77\x1c\x5a\x9d\x61\xab\x8f\xf6\x0e\xee\xab\x81\x7c\x57"},
{1,2,105,"\x45\xe9\x0f\x5f\x7a\x4e\x1e\x3f\x60\x26\xb0\x21\x08\x8a\x8c\x58\xe6\x98\xee\xe0\xd3\x9c\x25\x65\x6e\x6e\xd6\x0c\xd1\x34\x8c\x66\x70\xbc\xdf\x66\x92\x46\xbe\xe1\x65\x28\xb5\xad\xb2\x6b\xcc\xf5\x96\xee\xad\xd2\xdc\x4f\xf2\x3e\xe8\x5e\xc0\xc9\x7a\x1f\xd4\x39\xdd\x95\xe2\x08\x06\x93\xeb\x64\xb9\x1e\x06\x54\xe3\xbf\xd0\x3d\x3d\x60\xd6\x22\x52\x72\xb5\x92\x36\x86\x57\xce\x56\x2d\x7e\x87\x71\x96\x77\x72\xae\xa7\xae\x5e\x4a"},
{1,3,18,"\x2e\x3f\xb9\x00\x27\x52\xce\xd1\xbb\x3b\x1d\x4c\x0f\x9c\x1a\x3d\x27\xc4"},
{1,4,73,"\xe7\x03\xa9\x3b\x64\x9c\xed\x68\x62\x27\x68\x13\x34\xb8\xbf\x5b\x51\xe8\x5a\x45\x4e\x01\x6b\x42\xe6\x1e\xc6\xfe\x65\xb3\x39\x3d\xb1\x32\x42\x1a\x7b\x2c\x4f\x4e\xec\x55\xa8\x0e\x63\xc8\x83\x96\x1d\xa0\x8d\xf4\xf7\xb7\x35\x5f\xb4\x4d\x64\xe9\xcd\xae\xf5\x85\x27\x53\xc3\x9f\x46\x55\xd1\xa0\x06"},
{1,5,58,"\x6d\x06\x7f\xe6\xd6\x9c\x93\x26\x29\x3d\x41\xd8\xdf\x92\x23\x6c\xfc\x16\xd3\xb7\x69\xa4\xc6\x37\xeb\x13\x95\xc3\x4d\x34\x0c\x85\x33\x9e\xef\x16\xcc\x25\x74\xc9\xd1\x7d\xc1\xe2\xee\xa6\xd5\x83\x2e\x66\x14\x1d\x05\x61\xa1\x00\xd2\xdf"},
{1,6,154,"\x61\xd0\x3e\x91\xc6\xe8\xc4\x63\xb8\xc7\x72\xa9\xa7\xa0\xff\xfa\x0c\x92\xc9\x4f\xf4\xc1\xfb\x81\x7d\x5a\x31\x9a\xc4\xa7\x0b\x9c\x46\x7f\xb1\x98\x0e\x69\xa1\xbd\x3d\xcb\x78\x16\x0d\x55\x65\xf4\x0b\x17\xf4\x59\xc8\x54\xe1\x3d\xe8\xa4\xc6\x9a\xaa\xfc\xa5\x81\x9b\x95\x9f\x15\x4a\xdd\xe9\xec\x3d\xb1\x8e\x42\x27\x68\xc3\xdf\xe2\x02\x0f\xf2\x2c\x33\xf1\x09\xef\x2b\xd5\xcb\xb0\x96\x8e\xfb\x3f\xd9\x15\x86\x5e\x6b\xdd\xce\x17\x31\xc2\xfe\x00\x96\x4e\x30\x32\x61\x6d\x94\xa2\x59\x5b\x0c\x30\xf8\x5c\x65\x49\x73\x12\x57\xce\x8e\x97\x27\x35\x2e\xeb\xd0\x94\x41\xb6\x28\x7b\xe7\x7d\xfd\xf1\xe8\x7f\x88\xfd\x64\xc5\x44\xd4\x03"},
{1,7,70,"\x30\x25\xc9\x88\x26\xe4\x1f\x07\x44\x48\xd5\xf1\xde\x22\x64\x2d\x85\xe2\xc5\x26\x18\xab\xec\x6b\xbb\x85\x55\x83\xf8\xc6\xde\xfe\x3e\xe3\x09\xb6\x20\xa3\xdc\xf7\x28\x46\xd5\xfb\x5d\x67\xb5\x67\x13\xfc\x3e\x31\xd2\xf0\xde\xf1\xff\x0c\xa0\x28\x26\x09\xb4\x95\xa7\x46\x09\x9d\xb1\x72"},
{1,8,45,"\x91\xfc\x09\x6a\x76\x4b\xbd\x48\x09\xe7\x10\x14\xea\xc7\x1d\xc9\x57\x5b\xfd\x14\x7e\x0f\x20\x91\x34\xff\x67\x30\xd4\x83\x1e\xab\xf8\x82\xcc\x35\x3d\x35\xe2\xbf\x01\x68\x4a\xb3\x03"},
{1,9,116,"\x64\x0e\xb7\x9c\x1f\x24\xa2\xf5\xde\x7a\x72\x0b\x4f\x14\x23\xb7\xfc\x60\x12\xe1\x66\x80\xde\xb6\x45\x2a\x64\xfc\x10\x19\xe4\x2c\x9d\x09\x91\x10\x0d\xe8\xfd\xa4\x4e\x59\x3d\x1f\x00\x0a\xc3\x97\xad\x9a\x93\xb1\x3c\xf6\x96\x12\x80\x96\xbf\x6f\x22\x1b\xc5\x6a\x1f\xd4\x08\x8e\x7c\x94\x74\x87\xec\xe3\xce\x19\xca\x0c\xf3\x0e\xb8\x58\x22\x2e\x76\x9c\x69\xe4\x90\x7d\x03\x69\x78\x0d\x1a\x77\xcb\xa4\x54\x2a\x4e\x45\x39\x39\xa8\xbe\xc4\x9a\x11\x0c\x72\x4a\x10\x4f\x95\x78"},
{1,10,163,"\x0d\xd0\xfa\xc8\xdc\x75\x2c\x19\x76\x5b\x6c\x00\x21\x00\x59\xb4\xcb\xfd\xb4\xae\x19\x97\x66\x4d\x5b\x0f\x85\xd7\xee\x7b\x89\x67\x0a\x88\xb1\x05\x42\x61\x7c\xcb\x31\x03\xf1\x1f\x47\x2c\xc9\xfe\x53\xb3\x2b\xd3\xb7\xfa\xdb\xba\x6b\x6f\xfb\xe0\x2b\xa6\x8d\x7d\x44\x71\x80\x9e\xf8\x4d\x2d\xa1\xd3\x1c\xe8\xb6\xee\xaa\x1f\x97\xcd\x4d\x32\x8c\xfa\x5a\x08\x47\x1d\xe5\x94\x9c\x1a\x77\x39\x92\xae\x74\x06\xe1\xe9\xb1\x43\x7e\x4e\xbf\x0b\x18\x88\xdf\x60\x4a\x40\x5e\xed\x2a\x83\x30\x44\x06\x96\x65\x4f\x88\x55\x9c\x6a\x88\x52\x3b\x95\x02\x7b\x9e\x00\xf4\x59\xec\x31\x96\x85\x72\x5a\x9f\xca\xbf\x89\xfc\x18\xdb\x9a\xc1\x8f\xdf\x0e\xed\x3b\xb4\x8d\x7f\x72\x87\x4b"},
{1,11,71,"\x69\x20\x10\x25\x02\x82\x21\xeb\x9b\xd3\x78\xd2\x26\x72\xe8\xcd\x5e\xd1\x69\xc0\xb8\x67\x30\xba\x55\x96\x33\xc8\x03\x5e\x6f\x4e\xd9\x66\x43\x68\x8f\xba\x97\xab\x18\x51\x91\xbb\x13\x94\x6d\xd5\xa1\x46\x2a\x61\x31\xc3\x80\x60\x9c\xe8\x4f\x7f\x1b\x7c\xb5\x88\x58\x11\x74\xc8\x96\xe7\x87"},
{2,0,95,"\x8d\x52\xf0\x65\xa4\x96\x6e\xbf\x91\xb8\xae\x06\xd2\x72\x79\xbd\xc3\x98\xe7\x58\x09\x4a\x4a\xbd\x6c\x5b\xdc\x6c\x59\xa3\x6a\xa4\x2b\x8b\xd0\xa8\x4d\xa4\x78\xd0\x96\x13\x5a\x0f\x02\xeb\x4b\xc7\x06\x9f\xae\xd6\x87\xde\x5e\x3b\x8a\x9e\xb0\x80\x86\xc5\x38\x50\x72\xbf\x3a\x3e\x2b\x70\xfb\x1f\xca\x80\x35\x60\x22\xfa\x2d\x8c\x4e\x92\xe8\x3e\x28\xe8\xd3\x3a\xe4\x81\xaf\x96\x1e\xd7\x52"},
{2,1,344,"\x78\x42\x0f\xe7\xfe\x2a\xcb\x60\x66\x61\x47\xa1\x86\x79\xc1\x95\x53\xfd\x09\x1c\x1c\x85\xe6\x3c\x67\x2b\xfe\x48\xbe\xba\x24\x16\x17\xc9\x39\xd0\xc6\x22\x87\x6d\x19\x30\x3a\xb4\xea\xa0\xc4\x18\x68\xb4\x26\x6e\x50\x06\x60\x79\x94\x70\x32\xb3\x8b\x95\x49\x8d\xd6\x90\x69\x43\xef\xa3\x3f\x2d\x9f\x35\xb1\x1e\x5c\x7d\x12\xd5\x4a\xfd\x5a\xad\xc6\x59\x02\xff\xe4\xba\xf5\xe4\xe3\x81\x3f\x58\x8e\xf9\x90\x0b\x2e\x92\x99\xed\x44\xed\xe9\xe1\xdf\x55\xfd\x14\x4b\x9f\xee\x11\x66\x93\x49\x85\x39\xa4\x5b\x1f\x81\xfe\x49\x6b\x86\xe1\xc9\x48\xaf\xf3\xfb\x71\x75\xd9\x6c\x3c\x5d\x1f\xec\x40\xb8\x8a\x31\xbf\x97\x68\x72\x54\xd0\xfc\xeb\xb2\x6a\x83\x29\x35\xf3\x07\xd4\x7e\x30\xea\x38\xd3\x79\xb5\x00\x30\x36\x36\xad\x3c\x5d\xbb\xe8\xb2\x98\x9a\xd8\x3c\x90\x2a\x0b\xfc\x25\x5c\x4a\x19\x0c\x35\x2f\xd8\x98\x08\x41\x92\x2f\x09\x83\x14\x85\xc0\xa7\x76\xae\xbf\x26\xcb\xc5\x1a\x57\x11\xe7\xd4\x79\xe1\x95\xb2\x8f\x60\x18\x99\x57\xb3\x59\xb9\xd7\x8f\x1a\x9f\xfc\x13\xfd\x11\x51\x8a\x5f\x7c\xaa\xe6\x8e\xbf\xa7\x42\x35\x24\x73\x2a\x7d\x6a\x50\x62\x8a\xe5\x4f\xe6\xb3\x14\x9b\xec\xb8\xd6\x5b\x19\x86\x15\x2e\x4f\x05\x30\xec\x7d\x33\xd2\xdf\x87\xf0\xa2\x9a\x06\x25\x30\x77\x62\xe6\xb7\x1f\x23\xb4\xfd\xfa\x1a\xd5\xfc\x77\xc4\x50\xcf\x80\xf3\xaf\x26\xc1\x2e\x91\x8a\x51\x9c\x00\xbc\x5e\xcd\x41\x46\xd3\xf2\x41\x23\x7f\xbe\x18\x29\xf1\xcf\x96\x15\xa1\xf6\x8d\x00\xdb\x57\xb0\x56\xdf\x16\xdc\x2e\xc8\x1a"},
{2,2,270,"\x44\xa0\x0b\xb8\x2f\x4e\x4d\xdf\xa3\x8d\x12\xc7\x29\xa4\x3d\xb5\xe0\x7b\x34\x03\x63\x2b\x73\xc4\x7a\x23\xff\x89\x87\x83\xe5\x89\x08\x34\x08\xd6\x6b\xc5\x72\x6b\x03\x25\x49\x63\x93\x82\xf5\x0b\x98\xc3\x9a\x2f\x3b\x8c\xb4\x67\xac\x04\x8b\xcd\x47\xe8\x11\xed\x60\x33\x78\xf1\xe2\xb7\xd4\xe0\x0b\x87\xc8\x27\x84\x44\x31\xea\x3b\xaa\x38\x4d\xde\x33\xc8\x6b\x12\x64\xaa\x73\x69\x1c\xdd\x1e\xda\x9a\xc6\x3c\xfd\x4d\x93\xa2\xfb\x5d\x0d\xf1\xc9\x9e\x55\x4d\x84\x76\xa4\x66\x48\xc6\xf7\xe0\x92\x1b\x54\x8f\x6a\xc5\xa8\x1b\x36\x47\xc1\x71\xf4\x0d\x2b\xb1\xa0\x1a\xf5\xaa\x77\xe9\x88\x41\xd5\x8d\xda\x52\x44\xb1\x2b\xa7\x3c\x99\x54\x51\x81\x09\xe2\x43\x3e\xc1\xb8\x0e\xf8\x44\xef\x36\x3d\x75\xaf\xb9\x4e\xa6\xe9\x96\x0d\xe6\x23\x6b\x7a\xca\x3d\x2b\x4d\x7e\x02\x28\x59\xa8\xf1\xac\xc5\x06\x1a\x1b\x56\x22\xb5\x2a\x81\x8c\x7e\x30\xbb\x05\x27\xdc\x60\x66\x75\x3a\x61\xb2\xd5\x29\x59\xb4\xa4\xaf\xd7\x05\xa6\x05\xfd\xa7\xb8\x49\xc1\xdb\xce\x19\x51\x2a\x17\xab\x8b\xd3\x13\xfe\xee\x36\x5d\xda\x46\x88\xc3\x88\x41\xb6\x75\xaf\xee\xca\x87\x56\x8b\x33\xc5\x47\xb6\x36\xd0\xac\x77\x39\x8e\x66\x27\x27"},
{2,3,60,"\x12\x99\x7b\xd4\xb8\xfe\x0d\xfa\xef\xa0\x73\x45\xde\xc7\x3d\xe1\x26\x63\x52\x87\x10\x90\x21\x99\xb5\x20\xdd\x48\xa0\xb0\x65\x3a\x75\xa3\x2b\x16\x64\xe1\x2b\x0a\xac\xdf\x40\xf1\xb0\x2b\x75\x9e\x63\xfb\xcb\x87\xf3\xdd\xf6\xe4\xa7\xc8\x4c\x03"},
{2,4,167,"\xfc\x9f\xf5\xb5\x1b\x9f\x21\x1f\x6a\x04\x16\x1c\x3b\x68\x9a\xc1\x40\x03\x38\x68\x39\xbb\x68\x71\x29\xc9\x2b\x34\x90\x2d\xa6\x89\xb3\xad\x33\x03\x77\x9a\xd7\x8b\x81\xa1\x78\xe5\xbb\xce\xc8\x81\xbe\x69\x89\x9f\xe9\x59\xaa\xa4\x37\x59\x62\xb5\xf4\xb0\x6f\xbc\x43\x6d\xa1\x70\xee\xc3\x40\x45\xe4\xc6\x15\x8a\xf1\xe6\x82\x21\x0f\xec\x7d\x32\x0e\x2f\x37\x98\x7e\xef\x4d\x5e\xaf\xc6\x5e\x5d\xe4\x4a\x90\x26\x43\x84\xab\x99\xb0\x58\x8d\x44\xdb\x2f\x38\xb3\xef\x5a\x20\xed\x6d\x1d\xba\x6f\x3d\x0e\x5c\x12\x63\xca\xbb\x6b\x7b\x05\x99\x47\xd7\xc2\xa1\xe0\xee\xc5\xd7\x23\xcc\x3e\x58\x95\x45\x13\x62\xa6\x8d\x99\x98\xae\x01\xac\x57\xa8\x69\x3a\x79\x3e\x11\xaa\x86\x1c\xf8\x5e\x10"},
{2,5,234,"\x79\x1a\x1c\xba\x53\xfe\xca\xb2\x0c\x16\x97\xe1\x1a\x05\x45\x5e\x8b\xa9\xcf\xc7\x42\x91\xfb\xf0\x5b\x39\x19\x50\xef\x4e\x45\xd4\x0c\xca\xcc\x53\x31\xaf\x86\x92\x3a\x81\xd9\x16\x14\x1d\xdb\xf7\x13\x1f\xdb\xa7\x8a\x90\xb8\xfb\x87\x94\xce\xc5\x7e\x62\x68\x7d\x5e\xbb\x12\xdc\x49\xd1\x9c\xd2\x3e\xae\xb2\x8e\xc6\x5b\xe0\x88\xc7\xc3\x76\x0c\xe7\xc4\x5d\xe0\x15\x56\xa7\x19\xb6\x70\x98\xb0\x9e\x90\x34\x8a\xe0\x0d\xec\x9c\x8e\x45\xcd\x2b\x9c\xb7\x21\xe1\x27\x15\x63\x5b\x38\x59\x07\x5e\xe5\x2c\xb8\x2d\x2c\x30\x24\x97\xbb\x59\xc0\xf8\x6b\x4c\xf2\x22\x46\xd1\xfa\x86\x52\x7b\x16\xf8\xf9\x32\x46\x73\x83\x7e\x52\xd2\xcc\x5c\x2d\x0a\x82\x8d\x42\x8d\x8c\x1a\xc5\xbe\xb1\x11\xc0\xb9\x96\x1b\x2a\x0a\x99\x4e\x28\xd9\xf9\xd7\x71\x3d\xbd\xe7\xe9\x36\x01\xe4\xbe\x4f\xe7\xce\x26\xb3\x67\x56\xcf\x1e\x44\x37\xf8\xf3\x8a\x7a\xf8\xe1\x94\x59\xd9\x73\x95\xd1\x68\x55\xd0\xd7\xd4\x2d\xd4\xec\xb1\x2d\xb1\xdb\x56\x27\xa4\x55\x4b\x63\xce\xfa\x91\x29\x61\x38"},
{2,6,309,"\x68\x20\x35\x4e\x2a\xc0\xf2\x92\x9f\xa4\xc5\x01\x6b\x6a\xd1\x58\x5b\x69\x7b\x94\xb0\x2d\xe0\x5b\xa3\xda\xdc\xd1\x2d\x6f\x89\xfa\xcc\xe6\x2b\x16\x85\x2a\x73\x37\x09\xb9\x93\x23\x06\x90\x95\xa2\x66\x39\xde\x4c\xe0\x81\xaf\xa7\x17\x86\x34\x5f\x64\x99\xc2\xf1\xfb\xda\x7b\x30\x0c\x9d\xeb\x71\xbd\x21\xb9\x7d\xb9\x21\xb4\x09\x7c\x91\x8c\xb9\x9d\x9f\x82\x52\xe8\x28\x3b\x48\x37\x5a\xf6\x01\x2a\xd2\x3d\x8f\x2e\x5b\xb8\xb5\x7e\xf6\x6e\xd2\x8c\x57\x5d\xb6\x34\xac\x23\x4f\x90\x6b\x40\x79\x50\xe5\xf4\x28\xc9\x63\xf4\x4a\xb4\x5c\x84\xe8\x9c\x73\x69\x5d\x25\xc8\x9c\x5f\x2d\x6b\xd0\x02\xf0\x35\x80\x45\xc1\x86\x5f\xb7\x81\x06\x8e\xd8\x81\x07\x71\x66\x70\xb2\xd1\x96\x47\x99\x67\x4f\xfe\xdd\xe7\xc2\xaf\x2c\xc3\xb1\x95\xe4\x7b\xa9\x9d\x12\x2f\x97\x11\x65\x78\x73\xc3\xe3\xe8\xd0\x01\x4c\x02\x5d\x80\x18\x1e\x77\x2f\x52\xc4\xbf\x5b\x6d\x2b\x2b\x6c\x03\xf8\x9f\x55\x84\xd5\x2e\xc3\x89\xd0\x73\xa0\xd3\x0a\xfc\xf8\xdb\x48\x46\x7b\x27\x78\x6e\xa5\xb6\x8b\xcd\x82\x69\xf2\xe3\x4f\xd3\x67\xca\x7a\x4e\xee\x8d\x1f\xa9\x4a\x5b\x6d\x48\x26\xae\x6d\xe5\x21\x8e\xaf\x37\x07\x22\x7a\xb2\x4e\x47\xf2\x5a\xa9\x54\x52\xe7\x98\x0d\x0d\xb1\x56\xab\xea\x76\x73\xea\x60\xa4\x77\x3d\xeb\xf0\xe5\x1a\xfe\xcb\xb3\xa8\xe2\x15\xe9\xcd\xb7\x3f\x12\xc6\x02\x90\xb7\xc2\x02"},
{2,7,305,"\x30\x0d\x51\x0b\x1e\x79\xbe\x81\x7b\x14\xb3\x4e\x46\x44\x3c\x3f\xbe\xab\x2c\xe3\x2e\xe2\x60\xa3\xf8\x68\xd1\xbd\xd3\x3b\xb2\xc1\x51\xdd\x9d\x29\x97\x44\x54\xd6\xc3\x6a\x58\xb8\x20\xcb\xa0\x03\x7f\x7a\x9d\x8a\x1f\x20\x3e\xb0\x74\x8a\xf0\xf2\x87\xe5\x09\x20\x9e\x39\xd8\x41\x43\x49\x04\x07\x7d\x59\xea\x72\xf4\x5c\x73\xc6\x48\x13\xf4\x12\xfd\x14\x28\xce\x2e\x4b\x64\x6e\x3c\x3c\x9e\x7b\x6a\x7d\x91\x2a\x84\x40\x7e\x7c\xba\x1f\x5e\x3c\xd0\x57\x97\x76\xcc\xa9\x4f\xf5\xf9\xb3\x10\xb1\x35\x15\xdb\x7c\x5c\x4f\x48\x67\xb3\x05\x6c\xdd\x05\xbd\xa4\x9f\x84\x5e\x07\x2d\x5d\x67\xac\xf5\xea\xba\xee\xd2\x80\xb9\xfc\xf9\x0d\xb9\x21\xac\xc9\xa1\x71\x79\xaf\x7b\x7b\xbb\x51\xfe\xf5\xa7\xcb\x25\x47\x40\xfa\x8b\xd0\xd4\xb3\x2e\xdd\x94\x82\x75\xad\xef\x06\x71\xee\x22\x59\x11\xf6\x41\xeb\xef\x4c\x24\x94\xa3\x78\xa5\x82\xb7\xca\x67\x3c\x36\xd8\xb8\x68\xa2\x33\x77\x5e\x33\xbf\x6a\xd2\x24\x19\x26\x87\x8f\xfb\x5e\xcf\xc6\xac\x54\x3c\x0f\x32\x39\x3e\x48\xa8\xc4\x20\x5f\x4b\xe0\x5b\xb9\xa2\xb8\x42\x53\x76\x2d\xbf\x89\xe4\xb3\x5e\xe6\x99\xc1\xac\x91\x46\xd2\xef\xf3\xaf\x27\xf1\xee\x2e\x1e\x05\x5f\xf4\x35\xe5\x3a\xd5\xdd\xb0\xfd\xfd\x11\xbb\x46\x00\x73\x9a\x4b\xe9\x0f\x53\xf0\x0a\xcc\x7a\x65\x4d\x89\x37\xef\xaf\xb6\x50\xd9\xee\xce\x91"},
{2,8,86,"\x9f\x50\x7e\x35\xc1\x29\x5f\xe0\x16\x6e\xa1\x1c\x4a\x64\xfb\xbd\x7f\xb2\xeb\xa5\xa4\xfe\x04\x94\xe5\x38\xf9\x2b\x9d\xae\x18\xe5\x8e\xc3\xd6\x67\xf9\x7b\x69\x93\x16\xb0\x43\x8b\x93\x15\xe1\x15\x4e\xee\x77\x7b\x65\x4c\x03\x5b\x3a\x21\x4f\xde\xb9\x9b\x4d\xb5\x68\x6e\xe1\x96\xac\x03\x17\xb4\xd3\x4d\x69\xdc\x5c\x15\x39\x68\x22\xe8\x0f\xb3\xf8\xb1"},
{2,9,200,"\x7a\x32\xbd\x5e\xe6\xfb\xc0\x39\xaa\x07\xd4\xe2\xfc\xed\x4a\x15\x9f\xa0\x6e\xc0\xa0\x14\xb5\x02\x83\xeb\xb2\xba\x48\xfa\x2b\xff\xf8\xfa\x09\xeb\xba\x5e\xff\xc2\xa6\x6c\x3f\x25\xa2\xb5\x45\x09\xe9\xee\x67\xef\xa3\x1c\xf4\xd3\x0e\x31\x15\x1b\xfb\x45\xc2\xdb\xfe\x24\xfa\x3a\xbc\x7f\x09\xbc\xab\xad\xba\x15\x51\x77\x4a\x3a\x12\x07\xe4\x26\xff\x4a\x02\xe6\x79\xc4\x94\xd0\xc3\xb3\x09\x1a\x5a\x7f\x26\x0d\xa0\x34\xc8\xab\xf2\xd1\x80\x84\x3e\x50\x37\x1d\x07\x42\x92\x7d\x87\xfe\xc3\xea\xd7\xfc\x20\x1d\xea\x31\xdb\x96\xbd\x1b\x38\xb5\x63\x5f\x6e\x3d\xb4\x5e\x5a\xb6\xb5\xca\x3c\x96\xdf\x7c\x24\x93\xfd\x0d\xb8\xe4\x89\x74\xa1\x6b\xa2\xc4\x78\x62\x1c\xca\xa6\x23\xe8\xbb\x6e\x08\x70\x55\xfc\x82\x5e\x42\x72\x15\x15\xff\x06\x6c\xe5\x6a\x78\xec\x6a\xd8\x42\x8e\x0e\xde\x11\xfc\x5a\xa3\xc9\xa0\x70\xa6\x38\x3d"},
{2,10,38,"\x01\x04\x5c\x10\xf9\x18\x04\xfc\x15\x9a\x75\x14\x99\xd9\x9e\xc6\xbd\xac\xd2\x94\x95\x66\xb7\x9a\x34\x57\xcd\xfa\x25\x79\x79\x99\x6e\xf4\x06\x87\x3b\x10"},
{2,11,328,"\x64\x99\x18\x3a\x93\xe7\xe3\x36\xc6\xca\x58\xad\xa6\x5d\x78\x20\xf5\x34\x2d\xca\x66\x49\xf4\xb8\xe2\xf0\xa8\x24\xe8\x23\xd4\xf8\x69\x1e\x1b\xce\x66\x68\x6c\x55\x71\x0e\xb6\x29\x36\xef\x37\xb8\x18\x02\x65\x91\x16\xe1\x5f\x20\x59\x46\x0f\xaa\x7e\x6e\x68\xc1\x85\x01\x40\x40\x4a\x9e\x8f\xd8\xc8\x77\x33\x48\x54\x98\x54\xc8\x7d\x32\xd1\xa3\x01\xf2\x28\x4a\xa7\x34\x6d\x88\x90\xbf\xc3\x67\x52\xf6\xbd\xb6\x90\xbc\xdc\x01\x32\x8a\x7d\xfb\x2d\xb6\xf8\xde\x14\xdb\x1d\x8f\x01\x87\xcc\xd4\xd8\x38\x77\xb0\x48\xf7\x4a\xfb\xed\x98\xaa\x91\xb6\xbe\x5a\x87\x49\x77\xb8\x8d\x43\x63\x27\xc4\xfa\x07\x44\x51\xe7\x01\xfb\x62\xb5\x95\x7b\x68\x14\xa8\x77\x47\xd7\x91\xbd\x2c\xc0\x60\x6a\xc3\xca\xf8\xd7\xd8\xcb\x7e\x8e\xb8\x04\xd5\xfa\x3f\x5e\xbe\xf6\xe1\xb8\x52\xe9\x91\x5f\xe0\x6d\x57\x83\xea\xb6\x7f\xef\x43\x8a\x3c\x13\x49\x12\xee\x44\x9c\x79\x7c\x15\xe6\xdf\x67\x31\x2c\xc8\xa9\xe4\xc1\x7c\x07\x3c\x96\x51\x98\x06\xc0\xa3\xd3\xb1\xba\x58\x33\xfd\x27\x21\xe1\x55\xa4\x65\x74\x6e\x8e\x49\x64\xa0\x88\x4e\x94\x08\x60\x72\xfe\xb0\x11\x9b\x73\xe3\x83\xc9\x9c\x23\x3a\x21\x6b\x81\x30\xf4\x77\x81\x81\xb6\x68\x67\x95\x10\x2c\x57\x5d\xcd\xce\xe9\x05\x15\x23\x6d\x66\x75\x66\x8f\xe8\xe8\x48\xd8\x7a\xd6\xaa\x99\x27\x68\x32\xe8\xb2\x85\xd0\x56\x73\x2b\x03\x3c\x31\x2a\x87\x2f\x3d\x51\x05\x67\x79\x80\x83\x7d\xa3\xc5\x50\xa4\x1c\x22\x74"},
{3,0,39,"\x9d\x04\x81\x1f\xeb\x18\x69\x1f\xc0\x90\x07\x86\xd7\x9b\xf1\xca\xd1\xc1\x07\x8b\xb4\x76\xd0\xd7\x64\x54\x9b\x5e\x4d\x3a\x5e\x1e\x70\x99\x99\x3f\xba\xfc\x94"},
{3,1,77,"\x72\xb9\xe6\x55\xa4\xfb\x9e\x3f\xc1\x3a\x5d\xc4\x3b\xbd\x9c\x1b\x5a\x2a\x22\x8d\x60\x38\xc5\x06\xe8\xfe\xa5\x9e\xf1\xb4\x44\x23\x2c\xa8\x85\x2f\x06\x3e\xcd\xf9\x34\xd7\x20\xdb\x4d\xfc\xb2\x13\x3c\xd9\xf3\x97\x32\x3c\xce\x38\xad\x6d\x8e\xeb\x09\x77\x98\xd4\x24\xfa\xe0\xca\xb4\x4a\x00\x67\xdf\x21\x92\xc5\x02"},
{3,2,104,"\x7e\xa9\x9b\xab\xcd\xd7\x71\x8f\x05\x20\xa0\x67\x07\xa8\x8d\x5a\xdb\x40\x70\xc1\x09\x2d\x07\x39\x7a\xdb\xd5\x7a\xd5\xbe\x92\x0c\x0d\x95\xb9\xdc\xc6\xbf\x3f\x0d\xe9\x1f\x94\xd8\x4d\x7e\x27\x1a\x10\x8e\x7f\x41\x7c\x8f\x10\xfd\x2f\xd2\x24\xbc\x42\x14\xd0\xdf\x53\xdb\x49\x4e\x8d\x49\x03\xdb\xb1\xb6\xdd\xd6\xb6\x1f\xa0\x7c\xc5\x1b\x36\xee\xdd\x22\x9e\x4a\xe8\x2c\x9d\x31\x54\x0d\x55\x43\x06\xdd\x35\xa0\xa5\x81\x14\x81"},
{3,3,155,"\x09\xb0\x63\x37\x08\x8f\xa9\x57\x57\x5e\x4b\xca\x0b\x89\xbe\xfa\xcc\x57\x58\x7c\xb1\xc1\x29\xe1\x0b\xeb\x78\xc9\x7b\xb7\xc0\xda\xa9\xe7\xa1\xde\x07\x66\x98\xd0\xe0\xab\x04\xc0\xc0\x9b\xc9\x71\xed\x3b\x23\x63\x64\x16\xb6\x4e\x50\xf6\x67\x88\x8d\xbc\xab\xfc\x2b\x2b\xbe\x77\x90\x51\x5c\xc2\xc2\x92\xc2\x43\xf1\xa2\xe7\x79\xd9\x91\xd3\x10\xe9\xde\x15\xf4\x0e\x81\xe5\x77\x97\x20\x58\x48\x1e\x6a\xb1\x8e\x83\x87\x0a\xf8\xf1\xbf\x54\xe6\x2a\x92\x4e\x19\x0c\xe7\xa6\xda\x28\x14\xca\x91\x7b\x35\x32\x96\x3d\x72\x15\x5d\x5b\x59\xf0\x46\x38\xfa\x7e\x6f\xdd\x14\x5d\x72\x04\x93\x51\x9d\x96\x48\xdc\x75\xfc\x6c\xe1\xde\x8a\xc3\xcf"},
{3,4,172,"\xe5\xe3\xd5\x76\x79\x1f\xdc\x39\x66\x71\xc5\x25\xc5\x55\x19\xec\x31\xae\xbd\x2f\xab\x79\x47\x97\x2b\xcf\x35\x07\xc0\xe0\x05\x1d\xd3\xc5\x24\xf8\x36\xa6\x66\x75\xdc\x8b\x00\x31\xdd\xd0\xd2\xa7\x28\xe8\xfc\x9e\x40\xf1\x19\xdf\x4f\xb1\x00\x2f\x16\xdb\x4e\x87\x70\xf5\xe0\x82\x4d\xa3\xa3\xa2\x73\xec\x63\x5c\x68\xc2\xe0\x26\x30\xef\x74\xb0\xc4\xa2\x64\xbc\x8c\x72\x5d\x44\xb1\xa3\x36\xaa\xb4\xe4\x1e\xaf\xac\x10\xd0\xc0\xdd\xb3\xd7\x62\xc8\x31\xc1\xd0\x53\xcd\xef\xf8\xe5\x7a\xd8\x78\xb1\x56\xa2\xd3\xb4\x16\xfa\xfb\x83\x20\xf8\x78\x60\x4b\xb9\x22\xf4\x6c\xeb\x9e\x98\x2c\x26\xb4\x57\x7d\xe6\x86\x99\xa3\x73\x6a\x5d\x64\x79\x65\xe6\x8f\xf2\x9d\xe3\x23\x1d\x69\x44\xb5\xe0\x4a\xa7\x8e\x60\x82"},
{3,5,103,"\x64\x21\xfd\xb5\xa3\x8e\xf4\x0b\x8f\xfc\xbc\x92\x9a\x28\xad\x52\xf0\xb1\x25\xc6\x85\x36\x98\xc4\x28\xd8\x6a\xea\x87\xaa\x01\x97\x72\xfc\x88\x80\x4e\x34\x3b\x8a\xba\xcb\x2b\xdd\xbb\x8b\xd0\x2f\xa8\xb3\x22\x9c\xb9\xf8\xff\x2f\x69\xe1\xfb\xdf\xa2\xb1\x7f\x5e\x31\xda\xf9\x99\xf0\xbf\x6d\xa0\xdf\xc8\x7a\xce\x3e\xa6\x80\x0b\x62\x4a\x64\xa1\xf6\x91\x4f\xe0\xe5\x95\x99\x36\x55\x72\x51\x03\xf7\x84\xa9\x6c\xa7\xe0\x00"},
{3,6,92,"\x7d\xa8\x30\xa0\x7a\xcc\x7c\x11\xe0\xda\x88\x2c\x64\x9b\x89\xdf\x0e\x20\xcf\x58\x2b\xcf\xf8\xcf\xe5\x81\xa3\xdc\x64\x33\xc7\x83\x5e\x6b\x59\xc7\x62\xea\xf7\xcc\xd7\x0f\x75\x48\x59\xab\x12\xc8\x4e\x70\xb7\xeb\x2c\xe7\xbe\x03\xb2\x9d\x82\xc9\xa5\x41\x31\x49\x9b\x7d\x65\x92\x95\x67\xca\xb1\x3a\x5f\xaa\x0c\x9d\x69\x81\x69\x6d\xec\x31\x78\x61\xac\xd2\x2a\x88\xe9\xfe\xa5"},
{3,7,33,"\x0d\x09\x23\x4b\xfe\x39\x23\xcb\x2b\x08\x96\xc1\xe9\x38\xfb\x7f\xc8\x06\x5f\xca\xb4\xaf\x18\xc9\x8b\x7d\x15\x45\x75\x1e\xdb\x23\xea"},
{3,8,240,"\x9c\xb6\x0b\x0d\x81\xbd\x6d\xd8\x58\x70\x29\x72\x73\x12\xb9\x98\xa5\x11\x2f\x02\x5b\x1e\x08\x00\x3e\x50\x6d\x2b\xe0\x94\xe2\x26\x39\x1a\xda\x43\xef\x24\xeb\xb1\x9a\x29\x7b\x8c\x77\xee\x0a\x9b\x71\xda\xcb\x79\xf6\xe9\xf0\x51\xdb\xe3\x20\xf5\x3d\x36\xa7\x93\x1d\x67\xa0\x69\xb8\x94\xa4\xe7\xd6\x8a\x81\x41\xf8\x41\x86\x33\xd4\x64\x99\xd9\xa2\xf4\x09\x2e\xab\x1e\x45\xf9\x8d\xde\x82\x44\xf4\xf9\x2f\x3c\x5e\xff\x1e\x0b\xe2\xc8\x55\xbd\x3c\x01\x03\x70\x4e\x13\x4e\xca\xea\x87\xa8\x1b\xd8\x4a\x54\xc3\x9a\x1d\x43\x68\xab\xd8\x39\x93\x28\x14\x21\xf4\x1b\x66\x2c\x5d\x27\x5b\xc4\x80\xc9\x28\x5c\x09\xb5\x38\x9e\xb3\xfd\x3d\x74\x88\x38\x2c\xd7\xf9\x58\x0f\x37\xfb\xdf\xa8\x84\xc4\x0f\xcb\x9e\xeb\xea\x32\xb4\xfa\xf0\x71\xb2\x0c\x0d\x59\x5d\xb0\x03\x21\x6e\x6b\x2f\x2f\xd1\xea\xc2\xe8\xe7\xa3\x5b\x57\x57\x0a\x03\xe4\x10\x21\x3a\xd1\x8d\x6b\x17\x98\x02\x5f\xe5\xb1\x48\xb1\x59\x72\xc4\x36\x16\xab\xd2\xd5\x06\xcf\xb8\x13\xa4\x57\x3a\xfa\xd2\xf8\xff\x56\x1e\x90\xd3\x3c"},
{3,9,118,"\x6e\x90\xc6\x9d\xfa\xbf\xcd\x27\x81\x3f\x56\x8c\x6d\xac\xc2\x7c\xc4\x64\x62\x54\xde\x74\xb6\x32\x06\xa9\x44\xe8\x29\x07\xbc\x2f\xba\x73\x11\xe1\x69\x14\x47\xa7\x88\x2b\x3c\xdc\x8a\xc4\x16\xe5\xb6\x4d\x39\xa3\x3a\xd7\x29\x15\xac\x00\xdd\xee\x00\xc6\xb8\x3a\x1f\xe5\xcc\x49\x4c\x0a\x4f\xb4\x1a\x03\x2f\x2d\xe9\x14\xba\xd3\x3b\x2c\x75\x2d\x4c\x49\xfa\x7b\xf6\x1d\x2b\xc4\xae\x0f\x21\x87\x4b\x31\x45\x88\x0c\xbd\x0f\x82\x5e\x47\x11\x37\xe9\x30\x1c\xf9\x37\xc3\x89\x88\x8c\xad"},
{3,10,274,"\x09\xa4\x8a\xe5\x25\xb4\x48\x58\x90\x0b\xff\xe0\x64\x09\x33\xf0\x14\xc8\xd6\x45\xb1\x03\x2a\xa1\xd7\x27\x8c\x28\x49\x43\xc7\x0c\x40\xec\x5a\x7a\x38\x64\x9b\x71\x69\x32\xb7\xb3\x31\x3a\xa9\x14\x42\x4e\x49\x42\x8b\xa8\x1d\x33\x2b\xcf\xe8\x8d\xf8\xd8\x96\x1e\x32\x49\xc3\x58\xdc\x95\x2f\xc5\x2a\xa4\x76\xcb\x9e\x20\xcf\xe5\x83\x44\x6f\x76\xd1\x25\x44\xce\xb9\x31\x53\xdd\xde\x78\x0a\x41\x3a\x35\xed\x8e\xb4\x67\x68\xdf\x32\x7b\x3b\xeb\x66\xb8\x5b\xd3\x38\x7a\xee\x17\x00\x0d\x4e\x7c\x44\x25\x13\x72\xf6\x37\xd7\x4c\x2f\x80\x5e\x7c\x90\x80\xac\xea\xa4\x09\x5d\xd2\xe7\x0f\x27\x67\x7a\xe8\x5d\xe8\x6d\xf2\x2c\x8d\x3b\x39\x97\xe4\x7a\x5d\x05\x0a\x08\x2c\x6c\x22\x26\xc4\x4f\x4a\xa7\xd4\x01\xd9\x4d\x12\x80\xba\xe0\x13\x63\xab\x5b\x60\x5f\xb5\x44\xb5\x72\xbe\xd1\x0e\xb7\x9b\x49\x91\x9b\x5e\x86\x04\x0b\x6b\x78\x58\xf6\xec\x78\xe6\x37\xbc\xf0\x4a\xfd\x5f\xa6\x07\xc6\xbf\xde\x15\xbc\xe2\x83\x03\x60\x88\xd8\x85\x32\xcf\x81\x28\x44\xaa\xb7\xc6\x18\x19\x6a\x99\x86\x27\x1a\x09\x14\x8e\x53\x4c\xbe\x12\xe1\xc6\x91\x70\xb3\x5d\x16\xd2\x77\x31\xb2\x2c\x5d\x70\xc2\xae\x5d\x1f\xf1\x49\x0c\x5a\x23\x44\x24\x5e"},
{3,11,156,"\x6e\xd0\x00\x7d\x4c\x9c\x8e\x3c\x18\x84\x02\x44\xb4\x74\xfe\x1a\x91\x5e\x59\x35\x36\x1e\xf1\x88\x6b\x2b\xc6\x1d\xf7\xb5\xa7\x98\x7a\xd0\xf7\x70\x71\xda\x1b\x5a\x73\x1a\x86\xc6\x08\x38\xb7\x21\x88\xc5\x1f\x57\x30\x0b\x46\xa7\x37\xaa\xc5\x0e\x79\xd4\x98\x8b\x5b\x90\x82\x55\xf0\x75\xf8\x88\x2c\x4a\x74\xb9\xdb\x04\x1a\xbd\xb5\xdd\x4d\x4f\x95\x5a\x12\xd5\x17\x0f\x6c\x9d\x88\x99\xe8\x33\x5e\xbb\x38\x4b\x07\xbf\x6d\x10\xc3\x70\xc1\x06\x9a\x4a\xee\x10\x03\xaf\xac\x4d\x62\x6c\x75\x2e\x5e\x2e\xe2\xbd\xd0\xdd\x72\xc4\xfd\xe3\x49\xa9\x2a\xb1\xe8\xbf\xa5\x9c\xf9\x41\x70\xfe\x95\x59\x76\xc9\x34\x70\x62\xb7\xc4\xa6\x32\x1a\x8c\x25"},
{4,0,127,"\x8e\xc2\x72\xf5\x2d\xdb\x92\xe7\x65\xf1\xb4\xd0\x0d\x77\xb9\xfe\x8a\x95\x9b\x11\x6d\xa2\x85\xef\x38\x12\x5f\xc1\xd8\x21\x0c\xa6\xec\xc5\x6c\x9a\x86\xd1\xf5\x51\x56\x28\x97\xda\x08\x15\xbb\x10\xd3\x3b\x22\xd7\xee\x3e\xce\x3d\x2d\x34\x3b\x58\x7e\xfd\xcb\x7c\x84\x2b\xfc\xad\x25\x58\x7a\x63\xf1\x21\xe6\xb0\x92\xce\x69\xee\x99\x93\x31\xdf\xe8\x0a\x54\x72\xff\x45\xa9\xd3\xcf\xb4\xdb\x7e\xc7\x81\xac\x87\x75\x83\x56\x65\x69\xa9\x17\x3e\x84\x16\x9b\x6c\x71\x7a\x19\xd4\xae\x14\x9f\xb9\x84\xbb\x72\x8d\x23\x3a\xf3"},
{4,1,129,"\x30\x5a\x77\x33\x69\x70\xb6\xd8\x6d\x9d\x63\x54\xd3\x0a\x7c\x87\xb2\xf2\xf4\x84\x75\xf8\xdc\xd9\x06\x21\x97\xc5\xfa\xc2\x14\xdb\xb6\x35\x02\xf5\xaa\x1c\xc3\xcb\xad\x4f\x40\x24\x03\x23\x47\x71\xf4\x53\xff\x7b\x21\xdc\x06\xf7\x24\x9d\x04\xb7\x32\xbd\x07\x0c\x26\x44\x5b\x3d\xd9\x69\xb1\xfe\xe9\x29\x45\x6d\x47\xe9\x16\xee\xf6\xed\xcc\xdd\x18\x42\x9e\x1b\x87\x4d\xe4\xe6\x22\x34\x6a\x61\xe0\x32\xc6\x2a\x69\x7c\x91\xd7\xce\xe9\x5f\xcc\x26\x71\x5c\x22\xe5\xfb\x06\xdb\x39\xb3\xab\xb0\xb4\x6b\xec\xc7\x1a\x03\x62\x04\x4a"},
{4,2,98,"\x30\xba\xe3\x73\x8d\x28\x23\x99\x08\x53\x9c\xfb\x4f\x2b\x14\x91\x40\x85\x90\x7f\x44\xc0\x61\x40\xc0\xb0\xab\xba\x99\x47\x2e\x38\xc6\x04\x0f\x1f\x44\x06\x58\xab\xc7\x33\xa1\x2f\x9d\xcd\x24\x6e\xd1\x9a\x86\x2b\xb9\xa9\x53\x78\xf4\x11\xb3\xa3\xd2\x35\x19\x4f\xc0\x5f\xbc\x62\xe2\xe2\x36\x6a\xb4\xb9\xac\xdf\x5e\xb1\x0c\xbc\x44\x36\x70\xe3\x52\x6e\xda\x79\xcb\xac\x9c\x10\x8c\x52\x23\x17\x66\x14"},
{4,3,76,"\x2e\xed\xcc\x22\xa2\xba\x6b\xc0\xd9\x0e\xc8\x78\xc6\xa5\xd5\xb0\xbc\xc1\x34\x35\x6d\xe5\xd7\x01\x36\x53\x73\x14\xe4\x27\x79\xdd\x09\xb7\x7b\x77\x98\x8f\x96\x0d\xec\x60\x57\x9a\x4d\xd6\x15\x17\x30\xea\x53\x2e\xad\x27\xb5\x3a\x55\x57\x82\xa5\xd3\x9a\xc7\x77\xe0\x88\xfc\xb3\xce\x8c\x59\x8f\xa5\xe2\x17\x11"},
{4,4,27,"\x8e\xba\x54\x46\x6b\xe0\x55\x68\x4b\x96\x59\x62\xc1\x4c\x51\x61\xc1\x07\x5d\xde\x08\xcb\x50\x25\x8d\x45\x06"},
{4,5,197,"\x11\x37\x84\x66\x5d\x11\xac\x64\xb7\x74\xfe\xc4\xed\x6a\x1c\x6e\xfd\x8c\x12\x06\xf4\xb9\xf9\x37\xce\x2f\x97\xe3\x1e\x64\x81\xb9\xad\x1e\x03\x2c\x4b\x83\xc0\x38\xc8\x7e\x45\xeb\xdd\xe0\x80\x2b\xea\x1f\x90\xd2\xe5\xb7\xb6\x78\x44\x76\xdd\xf1\x8e\x70\x53\xc0\xb7\x04\x9b\xd8\xe7\xfe\x02\xa3\x3d\x78\xd3\x60\x86\x40\xd3\xec\xe7\x95\xf6\x30\x11\x1d\xb4\x33\xbf\x15\x6e\xa7\x55\xf7\x89\x35\xad\x01\x0f\x71\x82\x2f\x34\x9b\x82\x0c\x17\x2c\x43\x29\xb4\x60\x28\xb7\x31\xfe\xf8\xf6\x57\x84\xc5\xd3\xae\xa9\x2c\xa7\xca\xad\x37\x53\x1d\xa0\x40\xda\x8c\x06\x0d\x5a\x92\xc5\x27\x1b\x37\xa7\xbf\xac\x89\x52\x4b\x3a\x4a\x65\xe7\x34\x07\x61\x24\x63\xdf\xd5\x77\x3f\xca\x41\xd4\xca\xad\x43\xac\x08\x80\x2b\xd3\xce\x48\xd1\x61\x54\xf6\xeb\x24\xdb\xe9\xca\x57\x3a\x3a\xe7\xed\x2d\xac\x39\xfd\x47\x4f\xb3\x12"},
{4,6,45,"\x32\xa5\x80\x1e\xb6\x5b\x74\x32\xa7\xf3\x18\xdc\x85\xf2\xfa\xda\x11\x29\x6e\x9e\x72\x3c\x8d\x5c\x62\xa9\xfd\xe3\x99\xa7\x7a\x63\x00\xd7\xc2\xd2\x8a\x76\xec\x2c\x2c\x23\x98\xf4\xa0"},
{4,7,20,"\x0f\x4c\x34\xb4\x25\x57\x8b\x38\x40\xed\x6b\x21\x33\xfa\x06\x26\x31\xf1\xd5\xb5"},
{4,8,171,"\x8f\xa6\xb9\x1f\x66\x9a\x6b\x0a\xe7\xe9\x89\x7f\xa9\x46\x7a\xf5\xe3\x3d\x87\xb6\x5d\x63\xec\x14\xba\x65\xa5\xe6\xa5\xfe\xff\xe8\x73\x50\x8f\x99\xdc\xf6\x81\x19\x25\xd2\xa9\xe0\xc4\xe4\xb5\xc4\x11\xaa\xd3\x3e\x89\xf9\x2c\x94\x36\xe2\x09\x51\xbb\xdb\x88\xb5\x66\x84\x07\x08\xe9\x71\xe9\x0e\x58\xd7\x5e\x13\xb2\xc4\x90\x5c\xf1\x9a\x21\xc3\x4d\xf7\x76\xc1\x31\xad\x41\xfe\xe3\x1d\xcc\x0c\x56\x57\xe9\xea\x4d\x16\x5f\x7a\x09\xd7\x30\x40\x07\x44\xec\x04\xe5\x47\x7b\x44\xff\xa9\x16\x6a\x6b\xe4\xc8\x4d\x62\xde\x21\xd9\x18\x83\x6c\x47\x5c\x3a\x6a\x0c\x03\xb1\x17\x88\xed\x36\xac\xd5\x21\x03\x81\x2e\x2c\x1d\xea\x3c\x5a\xb6\x0f\xb7\xc6\x4c\xf2\xdb\x27\x18\x0c\x24\xf5\x29\x0b\x7e\xfe\x43\xe0"},
{4,9,122,"\x32\x5a\xb7\x4b\x7d\x59\x5d\xbc\x6b\xed\xe3\x8e\x91\x2c\x3a\xd9\xac\xf0\x84\x45\x30\x9b\x29\x91\x79\x53\x3d\x62\x32\xf0\x5c\x32\x19\xf3\x58\x29\x7a\x37\x5a\xc9\xd7\x99\xee\x95\xa5\xcc\xf0\x76\x77\x11\x82\x86\x66\xc5\x98\x85\xce\xc5\x39\x04\x0a\xd1\x92\xea\xea\xea\x44\xf6\x8f\x9d\x99\x13\x08\x52\xb3\x57\x76\xe0\x90\x03\x18\x94\x26\x77\x71\x49\xc7\x72\x1c\x92\x2d\x9d\xc8\xa6\x46\xa3\x4f\xff\x6d\xf1\xff\x4a\x98\x93\xf5\x81\x44\xc9\x5a\x3d\x72\x65\x7e\x96\x58\xf4\x53\xa7\x73\xea\xc5\xa2"},
{4,10,59,"\x0e\xb1\xa3\xf4\xcb\xe9\x63\x44\xe7\x95\xec\x2f\x8e\xe6\xd8\x81\x74\xc5\xd5\xa2\x7a\xe0\x06\xf3\x7d\x67\x17\x8e\x21\x47\x65\x33\xf5\xc7\x17\xed\xb9\x3e\x86\x92\x97\xd5\x9e\x25\x01\x9e\xcc\x4f\xf9\x1c\x6a\x30\xb8\x97\xf8\x01\x3a\xae\x74"},
{4,11,64,"\x32\x61\x42\x57\x8c\x28\x94\x74\x79\xf4\x9f\x81\x86\x68\xb5\xda\x1a\x6d\x0d\xb4\x32\xa2\x7b\xb8\xc3\x4f\x31\x3d\xd3\xd1\x44\x55\xb3\x98\x2a\xd5\x2f\xe4\x60\x8c\x23\x12\x93\x00\xce\x59\xbc\xd5\x93\x56\x2a\x9e\x14\x6f\x18\x32\xe5\x27\x98\x66\x7b\x2c\xd4\x12"},
{5,0,52,"\x8a\x2a\x03\xcf\xb8\x35\xcc\x59\xa5\x67\x6e\x5e\xaf\xe7\x17\x22\x7a\x21\x0d\xcb\xd2\x64\x67\x96\xad\x51\x96\x31\x76\x60\x4e\xbd\x25\x52\x2f\xc1\x9e\xfe\x3a\xea\x82\x8c\xf7\xaa\x85\xa7\x61\xc2\x63\x0d\x97\xa3"},
{5,1,110,"\x04\x21\xf6\x8f\x7e\x52\x8c\x22\x27\x68\x61\x65\xc3\x32\xfd\xd9\xde\x24\x5a\xb2\xad\xb6\xf4\x57\xe5\xec\x21\x8f\xe7\x0a\x0e\x5d\xb3\x62\x44\x07\xd9\x5e\x7d\xcc\xf2\x14\x35\x2c\x09\xda\x25\xc5\x33\x05\xd0\x5b\xcc\x8b\xfa\x3b\xe6\x24\x6c\x15\xe8\x53\xb0\x7f\xf3\x5b\x71\xaf\x35\xaf\x76\x07\xf5\xae\xfe\x2a\x1f\x90\x60\x08\x3d\xec\xcf\xa3\xa8\x60\x7f\xd2\x89\xe3\xa6\xf1\xcb\xc9\xb8\xc0\x0b\x4c\xb9\xd1\x90\x8f\x46\x43\x62\xdf\x81\x5a\x11\xf0"},
{5,2,154,"\x11\x33\x7b\x12\x8d\xca\xa1\x21\x45\xb5\x0a\xb6\xa4\x65\xca\x82\xeb\xf7\x11\xfc\x5f\x08\x4a\x5b\xee\x42\xf6\xff\x95\x9c\x76\x67\x40\x81\x2e\x4d\xba\x5e\x2e\xdd\x2b\xe5\x56\xf2\xf8\x47\x02\x96\xf4\xd4\x9b\xb8\x35\x1d\xeb\x65\x14\xe4\xec\xa8\xb2\xda\x3b\x61\xc0\x88\xc9\xad\xeb\xb1\xb9\x9e\xbb\x8e\x70\xe9\xf2\xd5\x77\xb9\x17\x7b\xbf\x69\xc4\xaa\x50\x29\xb0\xa0\xb4\xcb\x24\xc8\x6a\xb7\xfa\x20\x89\xb2\x5b\x5f\xda\xed\xfd\xe8\xe4\x89\x57\x8d\x20\xbb\x25\x4e\x9f\x8a\xfe\x24\x52\xb1\x92\x19\x21\xd8\xe2\x11\xc3\x38\xd2\x2a\x25\x77\x6b\xcb\x2f\xa3\x63\x26\x10\xdb\x07\x49\x0e\x1e\x4d\xe9\x76\x31\x9e\xfa\x05\x1f\x54\x4f"},
{5,3,251,"\x1c\xb8\x97\x4e\xcd\x3e\xc2\xe2\x91\xa9\x3d\x0b\x84\xd9\x80\xa6\x8f\x3e\xda\x2d\x99\xf4\xe6\xf2\xe8\xd6\x80\x66\x26\xf1\xab\x3b\x15\x32\xe8\x16\x00\xab\xa7\x58\xdc\x55\x80\xa8\x0a\x0d\xde\x39\x48\x90\x31\x8f\xcb\xd9\xa9\xb1\xf4\x70\x42\x29\x7f\xec\xab\x32\x3c\x9e\xc1\x16\x76\x47\xd8\xfd\x02\x4b\xe0\xf7\x5e\x87\x70\x50\x70\x53\x4c\xc9\x99\xb7\x76\xfe\x61\xc2\x2f\xe3\x6a\xc4\x0f\xbf\x77\x7e\x78\xdb\x08\x94\x69\xce\x09\xa5\x07\xb9\x14\x70\xac\xef\x35\x1c\x27\x55\x4e\x84\xe3\xb6\xc8\xb4\xb1\x25\x22\x96\x19\xeb\x5c\x36\x2b\x06\xa0\x02\x06\x26\x78\x2a\x78\xf4\x2d\x72\x4c\xcb\x29\x25\x24\x24\x34\x14\x70\x8b\x3e\xb5\x95\x10\x7e\xe0\x07\x97\xf2\xda\x54\xe5\xce\x4f\x45\x69\x44\x6c\xe0\x39\xc0\xa4\x63\x51\x96\x2b\x6a\x88\xbb\xcc\x80\xa2\x1e\x85\xc5\x48\x97\x5c\xca\xbf\x57\x81\x49\x43\x1d\x5a\x17\x96\xed\x67\x93\x00\x14\x99\xd2\xd4\x2a\xfe\x6f\x79\x79\x88\x60\xe9\xad\xc4\xd0\x81\x5c\xa1\xda\xf8\x38\xfd\x71\x74\x69\xb8\xf7\xa9\x20\xee\xf7\x74\xe4\xcb\x87\x23\x85\x24\x7d\xc2\x25\xa9\xf1\x96\x96\xef\xad"},
{5,4,90,"\x85\x88\x52\x16\x78\x3c\xb2\x31\x80\x5e\xbe\x8c\xf3\x4a\xf5\x04\xbd\x04\x00\xba\x05\x4d\x75\x7a\x0d\xec\x42\xf7\x60\x2e\x54\xe9\x4e\x39\x1a\xf5\x95\x56\x23\xca\x69\x82\x5c\x9e\xef\xc2\xb5\x33\x8c\x94\x52\x56\xd2\xd0\xdc\xa9\xe4\xe6\x27\xa2\xb2\x45\x09\x6f\xfb\xca\xd4\xcd\xa8\xa9\xd3\xbd\xa9\xd5\xb7\x73\xfa\xdb\x7e\xcb\x02\x45\x87\xda\x12\xbb\x05\x2f\x79\xd2"},
{5,5,93,"\x16\xeb\xd9\xda\xdb\x29\x61\x4d\x4f\x15\x56\xf0\x6e\x66\x8a\xc5\x5e\x7c\x12\x98\xa4\xdf\x3d\x2c\xfb\x08\x9c\x37\x21\x0c\x53\x45\x50\xa7\xb6\x5e\x5c\x11\xc5\xee\x26\xc0\x6f\xd7\xe5\x82\x75\xfd\x7f\xb9\x11\xe0\x00\x1b\xa4\x1f\x3b\x99\x4c\xf3\xf2\xfa\x4c\xb2\x8e\xea\xc1\x48\x42\x06\xc4\x43\x7f\xf3\x57\xc3\x30\x9c\x3d\xc4\x9b\xdf\x36\x1c\x32\xf2\xfb\x81\xd1\xd3\x90\x31\x80"},
{5,6,214,"\x10\x49\xa1\x9d\x59\x6e\x58\x83\xb2\x44\xd0\xbb\x6a\x22\x01\x62\x7e\x4d\xdb\x13\x10\x03\xc1\xac\xf0\x5f\xe9\x5d\x0d\x22\x38\x11\x29\x1c\xf6\xab\xa2\xfc\xf4\x0b\x57\x02\x49\x7f\x38\x4a\xeb\x41\xd6\xc7\x49\x5d\xd0\x8c\xeb\xf4\x6d\x4b\x99\xa6\xc0\xc8\xa7\xce\xfa\x6a\xd1\x31\x00\x45\x3c\x29\x18\x03\x23\x21\xf3\xb2\x79\xbf\xd0\x07\x73\x25\x2a\x91\x90\x55\xf5\x5f\xef\xbb\xf5\x75\xf1\xf3\xe9\x72\x64\x3e\x39\x92\x60\x41\x28\x4a\x45\xd7\xa9\xb4\xb4\xa7\x9e\x36\x12\x3b\x3b\xda\x8c\x62\x92\x9a\x83\x6f\x9e\xfc\xb2\xf3\x2e\x0b\x07\x64\xdd\x94\x09\x47\x50\x33\xa4\xce\x15\x91\x3a\x3a\xe8\x29\xa9\x64\x9e\x37\xe6\x31\xb8\xad\xe0\x42\x37\x22\x9a\x0e\x59\xb8\x42\x04\xd0\xb8\x09\x6f\x8e\x04\xfe\xec\x7e\x51\x29\x7a\xa1\x88\xb8\x84\x4e\x29\x40\x1d\xc5\x14\xa7\x0d\xf4\x7f\x65\x1b\xd4\xe9\xb7\xb1\xe6\x9c\x0c\x79\x47\x5a\xf2\xb8\x79\x98\xd1\x51\x1e\x8d\xf3\x72\x64\x8c"},
{5,7,93,"\x08\x6c\x21\x1d\xbc\x7c\x69\xf3\x8e\x9c\x2b\x89\x5d\x3c\xa4\xb7\x0b\x39\xe9\x03\x67\xd7\x33\x42\xaf\x4d\x18\x63\xf5\xc9\x20\xad\x9d\x61\xd6\x62\x05\xbe\xe8\x4c\x68\x48\x13\xae\xa0\x3d\x58\x6b\x96\xb4\xa4\x7b\x38\x64\x01\x7d\x22\x6a\xc7\x64\x0c\xf8\x62\xdb\x39\x41\x69\x98\xa4\xf8\xe9\x65\xc5\xed\x9f\xfb\xfa\x87\xbb\x9a\xa8\xa8\xd2\x20\xaa\x65\xa3\x1b\x79\xda\xe9\x07\x5f"},
{5,8,191,"\x87\xd3\x74\x9a\xf2\xea\x92\x46\xce\xd2\xd0\x35\xec\x50\xdb\x1e\x35\x1c\x3f\x38\x4e\x4d\xce\x51\x9f\x80\x3e\xb2\x96\x9e\x71\xb0\xba\xa4\x02\x84\xb8\xcc\xa1\xa5\x92\xc8\xb9\xaa\x53\x5f\xe4\x03\xec\x2a\xf8\x6a\xfa\x55\x70\x02\x99\xfe\x1b\xd8\x35\x9b\x37\xfb\x23\x1a\x4b\x89\x8c\x1c\xf8\xa2\xbd\xf2\xe2\xde\x53\x16\xb2\x14\xe6\x41\xc3\x87\xb1\x48\xff\x7e\x65\x9a\xc3\x5b\x49\xa5\xab\xac\x73\xea\x70\xb7\x0a\xfb\x5f\xcb\x21\xe1\xcc\xef\x7b\x92\x63\x63\x58\x4a\xb6\x8a\xbf\x9d\xc3\x94\x9b\x05\xc1\x27\x61\x7d\xce\x16\x99\x0b\x53\x3f\x3c\x4a\x89\x46\xa0\x0f\x63\x83\x81\x84\xbc\x14\x57\x03\x1e\xaf\x45\x74\xcb\x7d\x7b\xff\xe6\x86\xe0\x2b\x40\x64\x34\x26\x0c\x50\x2c\x4b\xb4\x2e\xfd\xe8\x76\x07\x96\xbc\x65\x12\x5a\x47\x5c\x9a\x10\x37\x62\x6f\x34\x7a\xcd\x15\x00\x68\xa1"},
{5,9,234,"\x1b\xac\x33\x16\xbc\x3d\x59\xe3\xa9\x4f\xd9\x8a\x95\x69\xce\x3e\x65\x5d\x7d\xe2\x8c\xd6\xa0\x56\x0e\x47\xb1\xb4\xeb\x4e\x96\x62\x95\xa8\x66\x4e\xfa\x19\xb2\x3e\x2b\x62\xf2\x69\xbc\xdb\xc6\xd1\x15\x34\xdb\xc4\x87\x77\x26\x48\x22\x6c\x3a\x13\xe2\x8a\xda\xf4\x89\x69\x5f\xc3\x9b\xef\x00\x24\x9a\x99\x38\x43\x7d\x59\xe9\x33\xf0\xd3\x99\xb6\x63\xf9\x18\xa1\x73\xcf\xce\x4e\x89\x17\x7e\x5e\xac\x1b\x30\x3d\x29\x5b\x49\xd9\xc8\x81\x32\xe0\x1d\x97\x51\x43\x63\x78\xcc\xf1\x35\x36\xff\x8e\x5f\xb9\x6e\x34\xae\x5b\x61\x18\x30\x11\x80\x38\x10\xd7\x26\xf6\x86\x11\xfe\xc6\xbe\xdb\x9e\x99\x32\xe9\xa9\xe6\x28\xf2\xd7\x05\xb3\x92\x55\x8a\xc6\x48\xef\xb0\x7c\xf0\xf5\x6c\x7b\xe7\x20\x02\xe0\x29\x50\x6d\xa1\x80\x98\x11\xdd\x50\xce\xe9\xa0\x3b\xcb\xa3\xbb\xb1\x49\x0d\x6d\x02\x0c\xa5\x10\x19\xef\x32\xd5\x70\xe6\x8c\xda\xc9\xa5\xb3\xb2\x8d\x85\x9e\x6f\x91\x8c\xd6\x3f\x01\x2f\x90\x24\x01\xef\xe6\x8c\xbe\x50\x9c\xd1\x8a\x2f\xf1\x3c\xda\x48\xe0\x4b\x04"},
{5,10,175,"\x05\xc2\xe7\xcc\x40\xb9\xe8\xf7\x24\x72\x19\x6e\x1e\x0c\x69\x73\x2d\x2c\xc1\xc1\xa2\x7a\x91\x07\x83\xa5\x7a\xd1\x8f\x33\x0e\xff\x01\x3b\x23\x80\x9f\x17\xd7\x3f\x45\x5d\x4f\x73\xf6\xea\x16\xb1\xf8\x53\x49\xd6\xaf\x05\x72\x27\x23\x35\x2b\x24\x61\xa4\x37\xca\x4a\x45\x97\xed\xe3\x63\x04\x22\xaa\x5c\x6b\xe3\xe3\x6e\xe4\x92\xfd\x21\x0a\x5c\xe9\xa3\x05\x33\x2e\x01\x62\xb3\xd9\xed\x63\xea\x59\x7a\x22\x2b\x0a\xaa\xf2\x30\xbd\x5f\xeb\xac\xdc\xd5\xca\xb1\xa3\x98\xfd\x03\xe5\x99\x03\xa6\xe4\xc0\x2c\xa6\x83\xf9\x24\xc2\x95\x32\xd2\xf0\xd2\x87\xeb\xf1\x7a\x85\x55\x34\x8a\x63\xb4\x46\xc3\xd9\xa7\x95\x70\x89\x78\xb2\xe5\x67\x99\x4e\x3c\x13\x80\xb0\x1b\xa0\x20\x57\x17\x33\x39\xc9\x42\x4b\xd0\x67\xeb\x57\x25"},
{5,11,107,"\x10\x87\xb3\xa4\x83\x1b\xc3\xb5\x37\x4f\xc9\xde\x6f\x08\x1b\xfe\xe9\x7e\x9c\xc5\x43\x2e\xac\x30\x07\x43\x4f\xe6\x9b\x30\x06\x1f\x43\x74\xf9\x90\xed\xcf\xe2\xa0\x8f\x1e\xf5\x1e\x6a\xcb\x82\x52\x20\xf4\xba\x7f\x49\x95\xd0\x7e\x63\x42\x62\xc5\x89\x88\xa9\x4e\x82\x9a\xb1\xbb\x0c\x88\xfe\x01\xb3\xe4\xa8\xe7\x95\x66\xe8\x9b\x41\x54\xc4\x57\x89\x4e\x8a\x8f\xf7\x5b\x6b\xde\xff\x1d\x4a\xf4\xeb\x37\x65\x6f\xb6\x9b\xa1\x04\x06\xde\x90"},
{6,0,121,"\x8b\xab\xa6\xc7\x05\x5c\xf9\xf3\x38\x32\x99\x35\x97\x10\xaa\x3a\x56\xa1\x78\xef\x77\x18\x1e\x70\x90\x9b\x54\x65\x82\x51\x43\xe8\x09\x4b\xb2\x2a\x66\x6a\x71\x0b\x24\x31\x36\x5d\x7e\x5d\x4c\x1c\xa7\x81\x93\x5d\xef\x2b\x0d\x33\x9b\xea\x4c\x9b\x1a\xcc\xf9\xb0\x92\xca\x4a\x16\xa7\xca\x42\x6b\x3c\xee\xb9\x98\xcc\xd7\xf2\x3a\xf2\xaf\x99\x55\x02\xba\x52\xda\x55\x8f\x51\x80\xf9\xc0\x85\xf0\x2d\xf6\xd6\x67\xed\xf4\xdd\x54\x8e\xaf\x08\x8a\x50\xd1\x89\x17\x04\x8c\x60\x1d\x7e\x95\xb5\xed\x03"},
{6,1,229,"\x0c\x7d\xeb\x60\xf3\x13\x1f\x7e\x08\x38\x90\x6b\xf0\xc4\x0d\x4f\x8f\x7a\x6f\x22\xc3\x80\x06\xe8\x5b\x6e\x02\x8f\xfe\xfd\x47\x24\xdd\x5b\xf2\x4b\xb1\x4d\xb3\xf5\x71\x62\xe7\x03\x8a\x86\x3e\xa0\x9a\x9f\xcc\xd0\x9d\x00\x22\x4b\x8b\xea\x16\xe8\xb8\xdb\xb6\x24\x8c\xd0\xa1\x8f\xc4\x23\xd0\xec\xce\xe5\xd5\x80\xad\x4b\xdd\xf0\xd9\x73\xa7\xe6\x4a\xd7\xcb\x3c\x87\x23\x75\xde\xa3\x89\x63\xfe\x3b\xd7\xc9\xfe\x9f\xf4\x23\xce\x35\xeb\x27\x63\x8e\xa3\xa4\x0e\x27\x80\x6a\xcb\x46\x1f\xa9\x4d\x5c\x22\x8a\xfa\x74\xde\x17\x78\x21\x46\x4e\x90\x3f\xae\xb9\x86\x0d\x53\x8a\xe9\x5d\x09\xc4\x02\xca\xe8\x95\x36\x03\xb6\x8f\xc5\x56\x6c\x1e\x02\x1a\x32\x79\x94\xf3\x1b\x41\x4a\xd9\xd8\xb0\x40\x33\x1a\x8b\x46\x55\xec\x5d\x93\xd5\xee\x92\xd8\x25\x0c\xa4\xdd\xaa\xe3\xbf\xf3\x57\xbc\xbb\x9a\x1a\x51\x87\x83\xc8\xb1\x87\x83\xbd\x70\xf6\x01\x51\xd9\x9b\xb5\x9f\xf6\x7e\x7a\x5a\x30\xa9\x26\x4b\x24\x4c\xd5\x08\xd1\xa0\xe3\x5b\xc9\xcd\x84\x33"},
{6,2,254,"\x1f\x7e\x2f\xbe\x13\x67\xfd\x22\xd5\xb4\x62\xa3\xe0\x31\x9b\x30\x41\x64\x58\x04\x33\x57\x83\x64\x7a\x07\x36\x7e\x95\xe9\x96\x80\xc1\xf4\xfb\x2f\xd1\xc4\x18\x26\xfe\x60\x4e\x6e\x6d\x85\xd1\x52\xe6\xae\x6d\x4c\x5c\xaf\x1b\x43\x8e\xbd\x43\xf8\xc4\x7b\xb2\xdb\x46\xe1\xc4\xc4\xff\x43\x1f\xbd\x60\x24\xf9\xf2\xa1\xe4\x0d\xe2\x74\x90\x66\x6e\xc1\xc1\x4a\xcc\x15\x3c\xdd\xe5\xa7\x9e\xbb\x3c\x0a\x71\x5a\x24\x84\x61\x81\x10\x46\xc3\x91\xf6\x5c\x24\x00\x92\x6f\xad\xbd\xec\x89\xba\xc6\x06\x92\x13\x6a\xc7\x8f\x7c\x56\x25\x15\xa9\x37\xca\x9b\xd9\x56\x84\x66\x70\xd4\x3e\x45\xbe\x18\x4a\xdf\x18\x0e\x18\x7f\x6a\x56\x59\xde\xea\x34\x27\xa0\x00\x29\x92\x7a\x39\xaa\x2d\xb6\x97\x32\x5e\x30\x29\x1b\xe6\xca\x25\xc8\xa5\x47\x09\xd4\xbc\x2e\x91\xff\xa8\x99\x66\x1e\x5f\x66\xc4\xad\xd0\xd2\xb6\x66\x62\xd9\x9d\xf4\x8a\x23\x27\x9f\xb4\x13\x20\x5c\x7d\x55\x09\x2e\x75\x17\x3d\xa8\xeb\xc3\x3d\x0c\xcf\xeb\xa6\xb7\x02\x58\x52\xb1\xdb\xbd\xa6\x66\xbc\x86\x65\x76\x3b\xda\xd7\x8f\x4f\x56\xa3\x32\x07\x48\x6c\x48\xa1\xd9\x7b\x9a\xa8\x53\xfd"},
{6,3,208,"\x03\x20\x18\xc7\x2f\xf1\x7a\xcb\x3b\x2a\x9f\x39\x3b\xb5\x39\xae\x69\x71\x0d\x09\xa4\xa8\x1d\xd1\x94\xa7\x29\xed\xb6\xd0\x35\x79\x1d\xa6\xcb\xfe\x56\x8a\xc5\xe3\xba\x5b\x0b\x55\x7d\xc6\xdd\xaf\xd0\xc1\xcb\x35\x25\x14\x52\x91\x9f\x74\xb7\x54\x0c\x6b\x7b\x98\xff\xac\xf2\xbf\x59\x8d\xbf\xb7\x95\xce\xd5\x09\x9a\xbb\x88\x73\x20\xa6\x30\x5a\x6a\x5b\x22\x2a\x73\x49\x7f\x40\x69\xb5\x2b\x35\x88\xe4\x8b\x37\x34\x71\x48\x39\x19\x1c\x17\xb9\x09\x13\xf1\x21\x48\xff\x6c\x38\x19\x50\xa9\x8c\x65\x92\xb6\x19\x49\x71\xfe\x45\xee\x17\xc8\xb8\xe6\x7c\xfd\x8a\x37\xd1\x0a\x16\xa9\x58\x90\xf4\x35\x79\xbc\xe6\x43\x72\x4f\xc1\xc7\xdf\x85\x93\x91\x1f\x81\x93\xb4\x72\xfc\x7d\x0a\x4c\x5e\x45\x17\x86\xce\x5e\xba\xdb\x48\x92\x02\x83\x0e\x6c\x9e\x53\x4f\xc3\x58\x5b\x38\x1a\x31\x8d\xde\x26\x9a\x89\x19\xd5\xa1\x1f\x59\x90\x95\xc1\xfd\xfe\xa3\x21\x50\xb4"},
{6,4,110,"\x8c\x53\xf1\xef\x91\x85\x89\xab\x62\x9d\xcb\x37\xf2\xc0\x31\xb9\xea\x58\xa6\xe0\x07\x64\xbb\x81\x3f\xaf\x8f\x1f\xdc\x31\x32\x9d\x4d\xfe\xaf\x18\x12\x41\x20\x82\xe3\x73\x0c\x47\x8d\xeb\xc3\xf7\x4b\x42\xdc\xd0\x7d\x7d\xf0\xca\x0f\x12\x5f\x95\xaf\x22\x36\x6f\x64\x30\xe8\x4d\xa3\x10\x47\xd7\x0d\xec\xcb\x85\xc9\x14\x67\xc3\xd6\x8d\x7c\x9b\xc4\x8a\xfb\xbd\xe6\xbb\x6b\x8e\xf2\xe7\xe0\x79\x4f\x6b\xa8\x77\x0a\xdd\x06\x2e\xea\x18\xd9\xdf\x80\x1d"},
{6,5,156,"\x10\x94\x30\x47\x32\x17\xff\x29\xda\x53\xc3\xa7\x6d\xbd\x76\xd9\x80\x8f\x5a\xf6\x8b\xec\x20\xe2\x98\x83\x41\x71\xb7\x8d\x65\x74\x27\xcc\x11\x91\xd5\x23\xe5\x44\x68\xc5\xf4\x6d\x9c\x46\x3a\xfb\x88\xec\x9e\x20\xe8\x44\x65\x26\x16\xb3\x2c\xca\xff\x33\x0f\x71\x38\x78\xbf\x43\x7b\x76\x4b\x17\x64\xb5\x81\x7c\xad\xb7\xf5\x52\xa9\x15\x10\x9e\xf0\xb5\xdd\x91\x6f\x1c\x47\xe9\x67\xe1\x19\xe3\xbf\x03\x8c\x38\x49\xe9\xbd\xdb\xfc\x38\x50\x01\x01\xb0\xf9\x31\x85\x36\xd4\x50\xa9\xc6\xb7\x0f\xcb\x4d\x7c\x37\x98\xcb\x3c\x21\x2f\x60\x45\xff\xd5\xaa\x20\xca\xde\x3d\x7a\xce\xc1\xef\xd8\xeb\xc7\xae\x0d\xeb\x07\x94\xec\xf7\xda\x7f\x9c\x1f"},
{6,6,208,"\x1f\x8d\x87\x2f\xde\xa2\xa7\x32\xd1\x3b\x08\x73\x9e\x12\x92\x5e\xf0\x74\x3d\xa6\x40\x43\xb3\x06\x1b\xfc\x8a\x0e\xbc\xe9\xf5\xf8\x13\x32\xb1\x6e\x4e\x7d\x01\xff\xaf\x61\xef\x7a\xa1\x28\x87\xaa\x6c\xfe\xaa\x07\xb1\x47\x60\x7a\x5f\x7e\xe7\x34\x72\x48\x58\x0b\xfb\xdf\x1d\x49\x58\xea\x74\x1c\x5b\xf5\xf8\x3e\xa0\x63\x0d\x8a\x18\x01\x76\x48\x66\x04\xdf\x9f\x40\x27\x81\xe2\xbe\x03\x72\x95\xa0\x2a\x0b\x09\xde\x51\xa7\x06\xee\x7a\x77\x05\xdf\xce\x54\xe9\xa0\x00\x79\x30\x82\x01\x9b\xf3\xa0\x66\x15\x17\x45\x13\xbb\xdb\x0a\x43\x9b\x9e\x81\x09\x25\x73\xe0\x56\x00\xc8\x9f\x85\xe4\x2d\xf3\x9f\xc7\xf5\x68\x52\x80\x27\x8a\x83\x2c\xa3\x3f\x9d\x20\x65\x27\x66\xb7\x18\xca\x3a\x0c\x6e\x92\x1c\x4b\x50\x1c\xdf\x82\x6c\x8c\x85\x25\x98\xa0\xa4\xd1\x22\x6a\xf7\xe0\xf9\x91\x07\x9f\x84\xe5\xcb\x13\x25\x29\x5e\xde\x5d\x1e\x0d\xb6\x0a\xb6\xd8\x0a\x0b"},
{6,7,85,"\x0d\x13\x03\x56\x55\x1f\x87\xd7\x8e\x75\x83\xbd\x14\xf4\xc0\x21\xa6\xc2\x3f\xe8\xce\xa0\xdd\x6b\x4d\xe6\xc2\x1d\x12\xdb\x15\xfd\xb5\xa4\x64\x5f\x48\x9b\xc3\x9e\xca\x4e\x5a\x01\x76\x53\x7b\x60\x39\x08\xaf\x98\xae\x3c\xa0\xf4\x91\x2e\x93\xe2\xcf\xb5\x80\x2c\x8e\x3c\xc0\x97\xa1\xaf\x7d\x69\xc8\x6f\x70\x42\x3f\x98\x92\xbc\x7e\xe9\xe3\x57\xc3"},
{6,8,308,"\x87\x99\x35\x68\xd4\x7f\xb4\xdf\xd4\xfe\x8e\x47\xfa\x8c\x4b\xcf\xc2\x5b\xc4\x2d\x30\xba\x98\x36\x61\xc0\xea\xd2\x88\x7a\xc4\x8b\xe1\x3e\x36\xb6\x8a\x8b\xa4\xa2\x60\xac\xaf\x5a\x56\xc5\x6b\x7f\x6a\xc8\x19\x0a\x61\xf5\x01\xed\x57\xb2\xac\x88\xb3\xcb\xb1\x1e\xb2\xa0\xdc\xb2\x0f\x74\x35\x8b\xc1\x9d\x75\x88\xe8\x94\xfd\xd4\xc3\x05\xa3\x73\xfe\xe6\xfd\x9c\xe4\x46\x2d\x59\x9d\x60\x8b\x2a\xfe\x7c\x59\xfc\x1b\x62\x5b\x8c\x97\x90\x62\xba\x9a\xa4\x6f\x01\x79\xe7\xce\xb4\xa4\x61\x60\x7e\xb2\xa7\xc2\xe5\x2a\xd9\xc7\x54\x03\x35\x85\xb6\xcd\x6e\x49\x48\x72\x80\x3f\xff\x6e\x9f\x17\x04\x88\xd5\xbb\x59\x11\xf4\xc7\xdf\xf0\x6a\x98\xc8\xd0\x42\x08\x6e\x0b\x0e\xf1\x3b\xf9\xd4\xd3\x76\x00\xda\x48\x36\x50\x8b\xea\x7c\xaa\xc3\x35\x94\xaa\xc1\x86\x65\x2c\xcc\x09\x4a\xff\x06\xe8\xb9\x9d\xaa\xb2\xe3\x59\x3c\x52\x4c\xbc\x88\x74\xaf\x87\xf8\x03\x40\x2f\xed\xfc\x78\xe2\x87\x06\xf8\x5c\x90\xd0\x56\xd3\xe2\x84\x66\x08\x1a\x80\x3a\xe4\xe8\x42\x83\x8b\xa3\x6a\x3b\x68\x73\xe6\xb1\xf7\x5f\x13\xe7\x6b\x08\x45\xa9\xea\xd2\xbd\xda\x66\x25\x15\xa7\x76\x67\xf0\xd8\xd5\xd0\x0e\x73\x28\x73\x69\xe7\x92\x3e\xf9\x8f\x98\xb9\x92\x94\x2d\x85\x27\x63\xb4\x05\x75\x30\xa1\x43\xb7\x92\x6a\xe3\x66\x4a\xf4\xf7\x2c\x22\x8e\xa9\x23\xae\x2f\xd6\x62\x1b\x53\x54\xd8\x36"},
{6,9,151,"\x07\x83\x21\x5f\xef\x6e\xb6\xe1\xe3\x56\x5f\x20\x31\x03\x75\x2c\x1b\x9a\xc3\xa0\x7b\x4d\x5d\xe6\xfc\xa2\x6b\xbe\x97\xa9\x3d\x5b\x11\x02\x4e\x10\x78\x6e\xf0\xf5\xfe\x75\x5c\x41\xb6\xec\xc0\x3c\xc8\xe5\x91\x34\x07\x74\xe4\xe0\xf4\x3b\x06\x83\x97\xfe\x5e\x68\x5b\x6d\x9f\x24\xd2\x11\xa3\x9c\x08\x7e\xb3\x9a\x28\xb7\xab\x43\x34\xeb\x08\x9e\x1c\xa5\x1b\x80\x30\x45\xe2\xb2\xb0\xf4\x85\x38\xaa\x01\x6e\x83\x0b\xae\xd4\x34\x82\x14\x27\x99\x37\x48\x0d\xea\x9e\x87\xe7\xc3\x3f\x4b\x2a\xbb\x81\x69\x5c\x8d\x78\x14\x12\x53\x5a\x1c\x4a\xa4\x72\xe3\xff\xc2\x4d\x8c\x32\x63\x59\x19\x1e\xfc\xff\xe9\xa5\x65\x86\xcc\xc2"},
{6,10,226,"\x13\x43\xa0\xa6\x95\x4e\x67\x0b\xb1\x1f\xf6\x7f\x32\xf0\x7e\x0f\xfd\xe0\xf3\xdf\x29\x6b\x3a\x31\x50\x45\x59\x31\x9b\xe2\xf0\x11\xb4\x18\xe5\x81\xca\xfe\x54\xb1\x70\x63\x68\x86\x6d\x17\xc6\x24\x2b\x29\x6e\x5d\xfe\x7f\xc8\x5d\xaa\x22\x61\x5b\x99\x52\xe4\x81\xfa\xb4\x58\x76\xe4\x61\x73\x11\xd9\xcb\x63\x46\x3f\x33\x4f\xc3\xbb\xb6\x40\x34\xf2\x41\x73\xef\x7a\x55\x39\x98\x37\xef\xa7\xce\xbf\x0a\xd1\x21\x32\x24\x5d\x12\x90\x03\xea\x60\xac\xd6\x01\xc7\x18\xaa\x6f\x44\x2c\x5b\x97\x73\x6b\x39\xe8\xed\xea\x44\xa3\x18\xd1\xe6\x44\xb3\xc8\x73\x65\xad\x4d\xbb\x1c\xf3\x55\xca\x28\x18\xa7\xd1\x1e\x0b\x3a\x4c\x6a\xbc\x2d\xdd\x20\x6c\xbe\x6c\x22\x9d\x8d\xe1\x27\x1f\x61\x9f\x5e\xe4\x21\x90\x41\x05\xf4\x8d\xb5\x02\x88\xc5\x68\xcb\xda\x36\xa6\x9d\xf9\x2a\xc8\x7b\x35\x4e\x32\x2f\x7e\x27\x52\xf8\xd0\x1e\xb9\x24\x88\x64\xcc\xe0\x13\xb8\x55\x92\x5a\x1c\x18\x7a\x99\xea\x96\xd9\x92\x29\x2e\x12\x6c\x65\xdb\xe9\x69\x80"},
{6,11,151,"\x0b\x45\x20\xcf\xdc\xeb\x8d\x97\xb6\x6d\x5f\xf8\xda\x6f\xdb\x4c\xcd\x15\xd0\x8a\xd1\xf2\xae\x53\x00\x36\x28\x41\x92\x74\x67\x9b\x10\xdb\xe2\x63\x8f\x70\x34\xa4\x3c\x4a\x75\x28\xd2\x4d\x6e\x68\x0c\xaf\x56\x44\x9a\xab\xd7\x8a\xa4\x7b\x9c\xbf\xb5\x2a\x0a\xdf\xe4\x9a\x7d\xca\x8c\xf6\xc9\xd0\x67\xec\x17\x54\x8d\x02\xf7\x02\x22\x86\x9a\x69\xff\xdd\xdf\x3e\x0d\x55\x17\x0a\x2e\x3b\x8c\x13\x63\x73\x40\x79\x0e\x6d\x1f\x99\xaa\xc3\x84\x86\x63\x5f\x19\x42\x1e\x9a\x11\x6e\x68\x47\x73\x1c\x89\x12\x85\x49\x81\x76\x9e\x01\x2e\x11\xc6\x9b\x19\x85\x5a\x3a\x6f\xa0\x4e\xa5\x2f\xec\xf9\x1f\x30\xb7\x89\xb9\xec\xf3\x71"},
{7,-1,18,"\x0d\x19\x04\xc0\xcc\xe0\x00\x00\x00\x00\x03\x75\x10\xb4\x33\x87\x00\x00"},
{7,0,1341,"\x92\x03\x10\x00\x00\x00\x00\x00\x01\xed\x0a\x7b\x37\xde\x5c\x8f\xfb\x32\xae\x89\x7a\x00\x98\x24\x4a\x3a\xa4\x13\xad\x96\x97\xbb\xaa\xe9\x54\x14\x5f\x0c\xcf\xe8\xef\x29\x07\x28\x86\xdd\x5f\xfc\xfb\x43\x2d\x64\xd0\x3a\x2b\xaa\x95\xcb\xe1\xee\x16\xe2\x5d\xb3\x1e\x13\x92\x96\x9b\x68\x01\xef\x6d\x4b\x0a\xbd\xe2\x32\x7e\xad\xfc\x43\xc9\xb2\xa7\x54\x7a\x47\x47\xbb\x89\x10\xdd\x4a\x62\xc5\xde\xdb\x81\x44\x7e\x48\xc8\x89\x4e\xfe\xfb\xac\xfd\xed\x1d\x09\x21\xef\x4f\xde\x72\xd6\x20\xeb\xe5\x39\x0f\x78\xa6\x96\xac\x70\xb2\x27\xb4\x9f\x5f\xd7\xe2\x44\x22\xea\xeb\xba\x8b\xc3\x18\x77\x5e\xa1\x42\x20\x6e\xc9\x6e\x30\x38\x21\x09\x0c\x01\xbc\xe9\x0b\xf6\x92\xd5\x0b\xb6\xfb\x57\x0c\xb7\x25\xf9\x18\xe0\x8a\xe1\x4e\xa0\xab\x1d\x31\x52\xc0\x76\x91\xe7\xf5\x55\x63\x8e\xa0\x8d\x7b\x32\x97\x77\x5f\xa6\xbb\x06\x1e\xaf\xf5\x81\x91\x78\xf4\x70\x42\x12\x23\x10\x00\x00\x00\x00\x00\x01\xd3\x13\xed\xdf\x60\x01\x79\x9b\x62\x1d\x73\xc9\x34\xea\xf9\x37\x07\xad\x3e\x73\x22\xf4\xbe\xf1\x7e\x30\x39\x4b\xe8\xde\x77\xee\x7b\x8a\x85\xda\xf7\x60\x68\xe1\xc3\xdc\x8b\xea\x6b\xb8\x95\x64\xcc\x92\x93\x39\xfc\x43\xbc\xfc\xd6\x1e\xf8\xb6\x5a\x44\x23\xfa\x43\xb6\xd7\xf4\x7e\x98\x25\xe4\x99\x62\xd9\x5b\x50\xc1\xbf\x9d\x68\xff\x8d\x67\x3b\xcc\x1d\x5b\x0c\x92\xe8\x4f\x49\x4e\x09\x0e\x7e\xba\xe7\xfd\x0c\x35\x5d\x05\xa2\x36\x4d\xdc\xf2\xce\x30\x34\x10\x03\x98\x31\xe8\x70\x99\x3d\xcb\x5f\x87\xc2\x45\x23\xef\xcb\x52\xdc\x00\x0a\x8d\x3b\x3f\x6b\x89\x20\x1b\x57\x66\x74\x66\x9c\x6a\x57\x79\x0e\x56\x07\xc5\x08\x07\x2f\xdf\x50\x11\x4f\xbb\x21\x1c\x3d\xfd\xb2\xb5\x5e\xf9\xbb\x54\x78\x1e\xac\x00\x1d\x60\x02\x2c\x7e\xcc\x80\x7e\xd0\x41\x12\x43\x10\x00\x00\x00\x00\x00\x01\xeb\x32\x4a\xbc\x24\x1e\x79\xd5\xad\x8f\x6f\x8f\x83\x99\xbe\xfb\xbb\xdf\x0a\x68\x77\xbf\xf7\x43\xc3\x1a\xb3\x4f\xb4\xc4\x64\x1d\xbc\x92\x23\xb7\x0e\x3f\xeb\x9f\xe2\xf4\xe1\xc0\xe8\x78\x79\x8a\x68\xa8\x3f\x9d\x0c\x43\x25\x2f\x79\xd2\x5f\x61\x10\x98\x71\xd7\x7f\xe4\x38\xc6\x00\xc2\x38\x10\xf9\xf8\xb3\xf9\x6b\x5f\xc6\x25\xb5\x9b\x22\xf6\x79\x59\x55\xda\x55\xf4\x48\x75\x83\x74\xe4\x6e\x94\xc7\x4c\xb2\x6e\xff\x1f\x7a\x6f\x6a\x1f\x3f\xd2\xfd\xbc\x66\x96\xfd\xc5\x5c\x03\x01\xdb\xda\x28\xcc\xc3\xb3\x1e\x2a\x6a\x05\xba\xd4\x25\xb4\xc9\x6f\xdd\xf6\x99\xab\xaf\x11\xca\xad\xf7\x7a\x3f\x1f\x54\x93\x2d\xc2\xf3\x48\x50\xb5\xe7\x8d\xf3\xee\xbe\x2d\x4a\x30\x21\x20\x31\x00\x00\x00\x00\x00\x00\x1f\x12\x0b\xf3\x58\x42\xa9\x39\xc5\x0c\x29\x1f\x5b\x1e\x66\xc7\x47\x4d\x9f\x78\x2d\x4c\x7e\xf2\xbf\x32\x1b\x5b\x24\xf3\xfb\x8b\x4a\xba\x09\x40\x50\xb2\x85\xc3\x5f\xff\x4f\xf7\x6d\x02\x06\x0e\x6f\xea\x47\x6d\x8c\x04\x6f\x5c\x40\x78\xaa\x91\xe5\x69\xe1\x47\xda\x1b\x72\x65\xfd\xb5\xcd\x8b\xfe\x1e\x56\x62\x01\xbd\x4d\xf1\xba\xe9\xf1\xe1\xf3\x0b\x74\xe3\x1c\xa3\xf3\x60\xf7\xa0\xc9\x3e\x87\x56\xc0\x04\x05\xb0\x57\x20\xed\xb4\x47\xf7\xf9\xc7\x44\x78\xaf\x68\x7c\x0b\x65\xe4\x20\xc6\x4f\x1b\x81\xde\x2b\xe0\x8d\xaf\x14\x6d\xe9\x2d\x46\xbd\xa7\xd0\x23\x0d\x25\x91\x24\x3b\x2c\x14\x4a\x20\x2d\x4d\xd0\x0d\x44\x83\xdd\x68\xfa\x69\xa0\x50\x3f\xe6\x0e\xb9\x14\x56\xa4\x23\x9a\xc5\x05\x5b\x3f\x9a\xf1\xbe\xc5\x9b\x81\x06\x29\x57\x4b\x50\x49\x04\x88\xc4\x00\x00\x00\x00\x00\x00\x78\x4c\x21\x45\xee\x08\x65\x31\xdf\x2b\x46\xc0\x05\xab\x93\x11\x0e\x90\xf1\x1e\x2f\xec\xff\xd2\xdc\x83\xcf\x40\x7e\x20\x5d\x80\x5f\x56\xff\xde\x9f\xeb\x11\x75\x8c\xe5\x7f\x62\x51\xcf\xbb\x9a\x4f\x81\x2e\x62\xff\xbc\xba\x04\x43\x80\x52\xcc\xc5\xf0\xab\x97\x41\xd1\xfb\x0b\x8f\xc6\x8f\x47\xbd\x3c\x5d\x25\xfb\xfa\xd4\xf6\xbd\x05\xc6\x61\x30\x4a\x7d\x62\x06\x3f\xef\xaa\x9a\xd2\xfb\xaf\x7e\x8a\x61\x9e\xe3\x8a\x8f\x77\x70\xf0\x05\x1c\xb5\x25\xc8\x76\x47\xc7\xc4\x18\x8c\x13\x12\xd0\x6b\xd9\xc0\xa2\x03\xc8\x5c\x59\xdc\xdf\x38\xf0\xaf\x1a\x0f\x53\xb7\xe7\xbc\x29\xe1\x9b\xd6\xc7\xdb\x60\x05\x32\x56\xd1\xa1\x1c\x29\xf4\x7f\x51\x2d\x07\xff\x70\xfe\x7d\x7d\xba\xbd\x37\x07\x33\x38\x49\x0c\x40\x00\x00\x00\x00\x00\x03\xb0\x06\x54\xbb\x1c\xec\x41\xe1\x38\x71\x6f\x25\x05\x5a\x8f\xb1\x74\x5f\xef\xc9\x96\xcc\xe8\x00\xcb\x4b\x96\xe3\xf0\x7b\x06\x8d\x29\xac\x00\xb5\x44\x59\xc5\xb4\x6a\x4f\xcb\xd9\x8c\x38\xcd\xf7\x80\x30\xf0\xe1\xe5\x00\x44\xbb\x4b\xd6\x1d\x17\xaf\x4e\xc2\xbb\x96\xd8\x69\xfc\x9f\x7a\xc3\x9e\x1d\xcc\x5a\xf6\xa4\x59\x7f\xf1\xbd\x52\x73\x40\xa4\xd6\x78\x17\xbe\x35\xe4\x0b\xd5\x26\x5f\xb9\x5e\x1d\x13\x9d\xe9\x30\x3b\x35\xff\xc2\x6f\xf3\x8d\xf9\xc4\x66\xa8\xaf\x58\xbd\xfd\xb4\x58\x17\xe3\x86\x77\x08\x67\x8b\xa4\xf2\x34\x59\xf3\xc4\x14\x4d\x2f\xda\xe0\xd1\xd2\xa1\xba\x32\xf5\xf3\x40\xec\x12\xbc\x6e\xeb\xc5\xf8\x82\x55\xff\xd0\x50\x7a\xc8\x14\x11\xc5\x9a\x55\xab\xda\xdf\x7a\x6f\xc2\xc3\x75\xa5\xfa\x1f\xe1\x08\x5f\xd0\xb7\x75\xfa\xea\x3b\xed\x45\x91\x9c\xf6\x67\x39\x89\x01\x88\x00\x00\x00\x00\x00\x00\xfe\xa4\x1d\xab\x72\x6d\xfd\x3f\x0c\x95\xfb\xbf\xdb\x05\x27\x40\x21\x32\xeb\xf5\x38\x00\xc8\x7b\x58\x03\x15\x34\xdb\x0d\x3b\xa9\xe8\x43\x05\x56\x76\xf1\xbe\x48\x57\xeb\xf5\xdd\xfb\x29\xd2\xff\x22\xb3\x83\xca\xde\x88\x5f\xfc\x90\xef\x86\xcc\xfa\x26\x33\x9e\x36\xa6\xba\x7b\x49\x0b\xd7\x44\x64\xd1\xfa\x73\x10\xc3\xd5\x84\xfe\xf8\x16\x91\x6c\x7d\xf3\xf2\x67\x15\xae\xd2\x2e\x7d\xea\x79\xb4\x3b\x7c\xab\x56\xf3\xa5\x8a\x17\xc7\x58\x50\xd9\x27\xe5\xf3\xec\xee\x86\x89\xaa\xb4\xd0\x49\xff\xc2\x08\x62\xe7\x8b\x4a\x81\x64\x9a\xd3\xa0\x00\x61\xdc\x5b\x55\xbc\x89\x90\x93\x25\x3f\x61\xd7\x4c\xe1\x40\x2c\x08\x61\x2a\x80\xf6\x4d\xb5\x22\xf1\x53\x43\xd5\x64\xac\x94\x6a\x52\x94\xa4\x28\x92\xfd\x67\xd0\x3a\xa5\x0f\x78\x66\xd1\x3b\xa4\x0e\x78\xe3\x4d\xb6\x5c\xc1\xbb\xc0\x00"},
{7,1,1359,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x57\xf6\x7f\xff\xe3\xbd\xb9\xf8\x4f\x1d\x92\x7a\x12\xb6\x8b\xbb\x36\x53\xe8\x2b\xca\x49\x4d\x09\xec\x88\xff\xa6\xad\x3e\x74\x2c\x2e\x77\x14\x7b\x3c\x47\x0d\x82\x0b\xda\xbc\x06\x3d\x99\x98\x46\xed\x9c\x8d\x4c\xfd\xd8\x80\x0d\xed\x79\xf4\xaf\x59\x99\x78\xad\x8a\x00\x03\xb1\x6b\x85\xa5\xaf\x51\xcf\x78\x06\x34\x09\x43\xb3\x16\x5d\x84\x39\xb0\xf1\x9d\x90\xc2\xf0\x2d\xa6\x9f\x0e\x02\x06\x7d\xff\x71\xfc\xf8\xf4\xe9\x9d\x31\x24\x96\xe1\xee\xf7\xe7\xe6\x66\x93\x97\x28\x5b\x7c\x01\x57\x55\x70\x88\xfd\x94\x6d\x18\xa3\xea\x8e\x8f\x32\x73\x62\x46\x23\xff\x22\x47\x83\x7f\x4f\xf9\xf1\xf9\xa7\x6a\xfa\x39\x7b\x81\x7f\xf8\xaf\xde\x1e\x29\x4d\x73\x14\x20\x1f\x71\x53\x00\xbf\xfc\x8c\x28\x29\x28\x6a\x9c\xd9\x45\xf2\xac\x48\x8c\x40\x00\x00\x00\x00\x00\x07\xcf\xa2\x51\x55\x73\xad\x1a\x0d\x8a\xc3\xe4\x0c\xcf\x35\xc7\xe8\xa8\x9b\x8b\x98\x93\xfe\xfd\x2d\x1d\x78\x44\xd6\x2c\x14\x65\x86\x4e\x83\x58\x76\x3c\xf1\x53\xc0\xf6\x85\x02\x7e\x5b\xfd\x2d\x00\xe6\x74\xf8\xec\x1d\xb1\x63\xb0\x7f\xea\x77\xff\x70\x96\x26\xe0\x08\x6d\xf5\x6a\x32\xf1\xb4\xdf\xfc\xea\x27\xb8\x35\x1e\xbd\xa0\xf6\xdf\xf4\xd4\x49\x00\xec\x5f\x17\x0a\x52\x5e\x49\x2c\x68\xbe\xf2\xc3\xe7\xe3\xb9\x54\x00\xd4\xa8\x9f\xf4\x7b\x59\x0d\xa8\x40\x58\x76\x96\x57\xd5\x03\x10\x63\xff\xbf\xfb\xda\x57\xb7\x35\x5e\x80\x7c\x28\xbe\xa9\x1f\xe5\x2c\xfb\x90\xb9\x72\x80\x8f\x0d\xa5\xff\x11\x99\x2f\x62\xa9\xc7\x7d\x64\x7c\xfd\x1d\x2b\x5a\x27\xa3\x74\xbb\x1c\xf2\x25\x52\x2b\xc2\x6f\xb9\xfa\xb3\xbf\xbf\xf2\x6a\xa8\xfb\xc4\x82\x4e\xfa\xac\x76\xef\xfd\x59\xa2\x79\x94\x24\x86\x20\x00\x00\x00\x00\x00\x03\xfe\x82\xba\x4a\x58\x52\x26\xc7\xc1\xd2\xe4\x55\xce\xbf\x27\xf8\xea\xbe\xcc\x1d\xc8\x40\x93\x5a\xb7\xe4\x79\x8e\x01\x34\xaa\x14\x46\x83\xb8\xfb\xfb\x44\x76\xa2\x1d\xf1\xe5\xba\x4a\xda\xb6\xc2\x44\xed\xc7\x20\x61\x1d\x3a\x2d\xd5\xb0\x3f\x68\xca\x40\x68\x39\xfc\x1b\x07\xcf\xab\xb6\x1e\x53\xa8\xb2\x58\xbd\x8a\xff\x0f\xa1\xa6\xb5\xf7\x46\xca\x04\x2e\x64\xcb\xe2\x22\x44\xbe\x29\xb3\x3e\x62\x4e\xe1\x99\x7f\x42\xa0\x1c\x0b\x33\xba\xb0\x7e\x1e\xc7\xd7\x96\x4b\x4b\xea\x8b\x3f\xc8\x45\x7e\x63\x3f\x3d\xcc\xc4\xff\xaa\x89\xe4\x0a\x9e\xbf\xe2\x96\xea\xc2\x86\x20\xbc\x73\x01\x04\xfd\x35\x6f\xe8\x5c\xb2\xdf\xfe\xd1\x11\x4b\x3e\x29\xea\x90\xae\x6c\xb3\xcc\xa4\x86\x97\x07\x0d\x19\x8b\xdc\xc5\x2f\xc4\x48\x0c\x40\x00\x00\x00\x00\x00\x05\xdd\xbe\x8d\xea\x9c\xef\x4f\xec\x22\xd1\xd7\x50\xe0\x87\xc3\xb0\x18\x2b\x48\x79\xe6\x8f\xf3\x7f\x90\x13\x22\x08\x22\xf1\xee\x3d\x97\x1b\x06\x46\x87\x3a\x51\x3c\xd8\x8a\xfc\x58\x75\xcf\x7f\xde\x39\x72\x22\x4e\xfb\x3e\xfc\x38\xed\x1e\xb1\x79\x32\xe7\xfd\x72\x72\xce\x5c\x52\xd1\xff\x55\x63\xc3\x66\x8b\x27\x4c\x94\x90\xf0\xd5\x16\x54\x28\x79\xec\x1f\x43\xd6\xdf\xba\x4f\x75\x6a\x92\xd4\xee\x4d\x7f\xff\xf7\x22\xca\x7a\x6d\x91\x25\xff\x88\x8d\xfc\x66\x6a\x60\xd9\x2a\x7c\x7f\x82\xea\x2b\x02\x81\x09\xcb\x50\xb5\x2e\xe3\x6b\xe2\x18\x28\x5d\x1e\xff\x29\xe0\xc3\xe5\x63\x91\x4f\x31\xb0\xcf\xfa\x11\xa7\xf7\x5b\x17\xfa\x78\xa8\x7d\xe1\x49\x1d\xdb\xe3\xd5\x77\x0d\x08\xeb\xba\xd8\x47\xd5\x1b\xee\x43\xc4\x88\xc4\x00\x00\x00\x00\x00\x00\x59\x75\x5c\x2b\x75\xbf\xd7\xae\xb0\xf5\xd4\x0a\x04\xcf\x7c\x09\x63\x47\xcc\x1a\x4b\xa9\x43\xfe\xf0\xae\x99\x20\xa8\xef\xd1\xdf\x2c\x73\xfc\x3e\x0c\x14\xf9\xa3\x75\x8a\x22\x8d\x9a\x73\x63\x70\xcc\xb3\x99\x8a\xcc\x61\x34\x7c\xfe\xe4\x97\x60\xea\x83\x7e\x6a\x6a\xfd\x41\x04\xa5\xd6\xcf\xf4\x2a\x33\xa3\x91\xa7\x52\x37\xbd\x2e\xb6\xbf\xf8\x4c\x87\xcb\x7c\xd9\xb0\x77\x11\xa4\xa5\xd8\x2d\x37\xff\x63\x61\xf3\x8a\x97\xda\x23\x90\xe2\x07\x38\x83\x25\x2e\xe3\x22\x5c\x82\xe1\x51\xa8\xf1\x2b\xf1\xd3\x1c\x05\x79\x2e\x92\xa0\x80\x28\x37\x56\x97\x1e\xaf\x26\xf1\x0c\xa9\x21\x5b\xe3\xac\x51\x76\x98\x19\xf9\xff\xa5\x18\xf9\xca\x27\x17\x49\x31\xc8\xfe\xd2\xe8\xd7\x0e\x50\xae\x75\x4c\x77\xdf\x6d\xda\x5f\xa1\x5c\xfe\x96\xd3\x23\x45\xb2\x7f\xd6\x8c\x0b\x41\x85\x5a\x03\x90\xd5\xdf\x40\x50\x98\x92\x18\x80\x00\x00\x00\x00\x00\x0f\x9e\x31\x3e\xd7\x9f\x6a\x37\xcc\xdc\xb0\x7a\x49\xcf\x70\xfc\x73\x12\xcb\xc6\x8f\x19\xc3\x72\xae\x77\xeb\xf3\xa2\x14\xd8\x1f\xbe\x2e\xeb\xa5\xfc\x59\x0f\x91\x34\x99\x45\x70\xef\x57\x88\xb1\xed\x14\xc7\x61\x0d\x04\x76\xd7\x81\xdf\xf8\xe1\x48\x7d\x71\xe7\x82\x23\xd9\xfe\x04\x8f\xf5\x30\x7f\x16\x85\x7e\xce\xb0\x60\x5f\xf5\xf3\xdf\x0b\x7b\xc0\x0b\xed\xf8\x28\xce\x0d\x7a\x54\x75\xb8\x7f\x0d\x6d\x95\xba\xbf\x10\xec\x6f\x43\x51\xef\xa0\x63\x7f\xba\xe9\xa5\x92\x9c\xe1\xf0\xbd\x3d\x4f\xbb\x00\x98\xfe\xd2\xd8\xfa\xf1\x32\xb8\xfc\x84\xb0\x85\x94\xca\x1e\x11\x73\x7f\xbf\x0d\x6d\x2c\x0c\xb4\x12\xa2\xbc\x1b\xe2\xe4\x07\x7b\xfe\xa9\x2b\xf8\x1c\xa3\xdb\xcc\x0e\x20\x10\x12\x03\x10\x00\x00\x00\x00\x00\x01\xf9\x93\xe7\xee\xe7\x7d\xda\x13\x17\xa1\x92\x4c\x39\xf1\x28\xba\x61\x65\x68\xb4\x85\x00\x7e\xb8\x39\xdd\x6b\xed\x54\xbc\xba\xfc\xb3\xd8\x5d\x43\x43\x8c\xe1\x42\xe9\x36\x22\x93\x92\x3c\x9b\x7a\x2a\xa8\xc8\x22\x78\x23\x15\xde\xcf\xa2\xdf\x05\xe1\x79\x90\x0d\xdb\x86\x5e\xfc\xac\x44\xce\xe9\xef\x49\x88\x02\x70\x21\x4d\xa3\x61\x12\x40\x51\x4d\x45\xf7\x56\xfe\x49\x97\x6f\x65\xff\x9d\xa1\x6f\xf5\xc3\xff\x87\xcb\xf9\x8c\xd7\x89\x81\xff\xe8\xd7\xe6\x2d\x54\xc1\x0f\xfc\xd4\xea\x65\xf6\x6c\x69\x76\x9e\x80\x03\xae\x22\xd4\x13\x77\xf8\xde\x99\x9e\x62\x4f\xe2\xfe\xfb\xd8\x84\xf7\x5a\xc0\xdb\x55\xf4\xdf\xf3\xba\xc8\x66\xe4\x06\x4d\xb6\x2e\x3c\x01\xae\x1f\xfe\x07\x5c\xec\xf4\x5f\x0a\x17\x10\x02\xea\x1a\x85\xb4\x69\x11\x5e\xa1\xf0\xb9\xf2\x2e\x12\xed\x33\x41\x0b\xe9\x65\xa0\xcc\x2f\xba\x88\x64\x92\x49\x55\x0a\x24\xbf\x59\xf4\x0e\xa9\x43\xde\x19\xb4\x4e\xe9\x03\x9e\x38\xd3\x6d\x97\x30\x6e\xf0"},
{7,2,1313,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x59\x11\xb7\x4a\xff\x4a\xb7\x77\xe1\x3f\xe2\x99\x1b\x5d\xdd\x1e\xcf\x74\xcf\xc8\xeb\x79\xf6\x20\x87\x86\xe6\x60\xfb\x1a\x66\x1a\x03\xbc\xf8\x2b\x1b\xd8\x5b\xdf\xf3\xfa\xab\x2f\x9f\x3e\xa5\xdc\x83\xed\x83\x33\x8e\xad\x83\x11\xc0\x16\x6e\x46\x4f\xbe\x9f\x04\x06\xec\x7b\xd2\x42\xdf\x2a\xca\x34\x06\x7c\xf7\x8d\xa7\x2a\x32\xf9\x99\xc5\xf6\xcc\xfc\x3c\x76\xec\x3c\xcc\xf9\x69\x15\x7b\x92\x1f\x43\x7d\xb4\xfc\x4e\xe6\xda\xef\x1b\x0d\x72\xae\x8d\xfe\xf8\x67\xcd\x31\x84\xb7\x07\xe2\xc9\xa2\x37\x14\x65\xbf\x4a\x41\x21\x03\xe2\x07\x17\xf6\x04\x4e\x8d\x63\x96\x88\x76\x4e\x8d\x28\xff\xa2\x9b\x84\xc3\x81\xac\xd7\x14\xde\x20\x2e\xd5\x74\xc1\x21\x86\xf7\x4e\xc5\x6c\x1a\xa8\x53\x37\xd9\xf1\x42\x9d\xd5\xf0\x91\x18\x80\x00\x00\x00\x00\x00\x08\x3c\x75\x50\x0a\xd2\xff\x79\x33\x3e\x88\x00\xed\x7b\xa8\x2c\xe1\x53\xc8\x2e\xdd\xd7\x89\x5f\x43\xd4\xfc\xed\x9d\x4d\xf9\xba\xed\x5d\xf3\xa9\x16\xf1\xb8\x21\xbb\x64\x25\xa5\x4f\xe1\xa3\x4b\x2e\xa8\x62\x8f\x79\x8a\x24\xc5\xc7\x02\x3e\x2b\xe0\x11\x19\xd1\xa0\x8b\xf6\x62\xa2\xf5\xff\xc1\x5a\xfa\xe4\xaa\x7d\x3d\xec\x2b\x8b\xf7\xb6\x7e\xb6\xb8\xb6\x9c\xdc\xb0\xae\xb3\xcf\x08\x47\x05\xe7\xcf\x6a\x0c\xf4\x38\xd4\xfd\xe8\x0e\xaf\x8d\xfc\xdb\xa3\x04\x5c\x37\xca\xb0\xe2\xb7\xbd\xc5\x2b\x0a\xc0\xab\x8d\xab\x41\x77\x2a\xd1\x80\x30\x73\x38\xe4\x80\x84\xf3\x58\x05\xc6\x9d\x51\xc4\x9c\xb0\x17\x42\x23\x47\xa6\x3c\x65\xfd\xe9\xce\x2e\x25\x58\xc8\xe6\x93\xa4\xeb\x6d\x73\xe5\x06\x78\x92\x18\x80\x00\x00\x00\x00\x00\x0f\xb4\x24\x2c\xa3\x79\x7a\xdf\x99\x6a\xa9\xe5\x2a\xeb\x63\xa0\xe0\xbb\x21\x7d\x45\x44\x1e\xec\x05\x68\x29\xa4\x7b\xd5\x30\x81\x8f\xe2\xaa\x41\xb4\xd3\x32\x98\x4e\xf5\xfe\x87\xc7\x43\xca\x16\xa4\x2e\x97\x65\xe2\x78\xcc\xca\x37\x89\x31\x1a\x19\x92\xe6\x8d\x53\xa5\xf6\x1b\xd0\xe7\x65\x7c\x1e\x3f\xec\x82\x88\xfd\x9c\x9b\xe3\x8c\x46\xda\x7f\x03\x59\xff\xdf\xde\x58\x4c\x84\x6a\x1a\x6c\xc4\xde\x6e\x92\x90\x3d\x79\xc2\x25\xaf\x0e\xed\x9c\xa7\x78\xd8\x79\x9d\x14\x36\xd5\x21\x91\xf2\x32\x46\x72\xe9\xcf\x7f\xc1\xfe\x78\xde\xaa\xd3\xc7\xfc\xac\x9d\xef\x1b\xbf\x5f\xeb\x29\xe7\xc6\x40\x53\x3f\x75\x9f\x01\xee\x41\xb0\xb6\x4a\xaf\x6d\x41\x4d\x98\xfe\xa5\xa8\xe0\x04\x3a\x87\x7d\x89\x40\x45\xea\xc5\x2d\x51\x20\x31\x00\x00\x00\x00\x00\x00\x1f\xfc\x69\x0e\x52\xbe\x45\xa4\xc1\x1d\x27\x1d\x29\x97\xb0\xa3\xa6\xdb\x48\x7c\x01\x3b\x1f\x10\x90\x6f\xde\x6c\x57\xcb\x98\x57\x69\x90\x8e\x0c\xe8\x0b\x54\xe9\xdf\x03\x74\xc2\xed\xee\x28\x4f\x0c\xc3\x72\x29\x1b\xfc\xd9\x42\x29\xba\x90\x9d\x4e\xbb\x6f\xe4\x71\x89\xf3\xb4\xdd\x41\x9c\x36\xa0\x3f\x92\x57\x0e\x98\x0c\x87\x5c\x21\x8c\xa1\x7c\xd7\xf4\x3c\x9e\xd0\xd7\x2e\x89\x4d\xb0\xa5\x40\x21\xc4\x4f\x86\x1e\x17\xa9\x70\xe9\xf2\x94\x37\x5f\xc7\xeb\x7a\x7f\x7f\x2f\xc0\x57\xcf\x07\xd3\x8a\xd7\x40\x78\x29\xe4\x31\xa8\xf8\x58\xa0\x3f\xd8\xf9\x1d\x1a\x00\x6e\x76\x80\xce\x45\x5f\xd0\x38\xef\x2b\x4d\x39\x56\x35\x78\x35\x56\x41\xec\x21\x6f\x35\xc0\xfd\x05\xb4\x03\x9c\x01\xc6\x3e\x79\x14\x05\xbf\x81\x29\xb3\x21\xf3\x36\x70\x91\x18\x80\x00\x00\x00\x00\x00\x0d\xc4\xcf\x3f\x7b\x3f\x9b\xc8\xf1\x0a\x5f\xc1\xcf\xf2\x6d\xfe\xf7\x17\xad\xfd\xf1\x39\x7f\xe3\xb6\x7d\x99\x06\xd5\xaf\x48\x6c\x97\x95\x5b\x32\xfc\x50\x75\x15\xb5\x60\x9f\xa0\x87\x2d\x1e\x5e\x4a\xff\x04\xbd\xf4\x06\xc8\x23\xdf\x70\xb3\x02\x95\xae\x8c\xf4\xd8\xba\xd9\xaf\xf5\x9d\xd7\x52\xf5\x5e\x35\xe5\xf4\xf9\x2c\xf7\x71\xc5\xe2\xd2\x2e\x3f\x7f\xa5\x74\xff\x80\x80\x0c\xea\xf7\xd0\xd4\x7a\x26\xbe\xcd\x5b\xe9\xef\x7d\xcf\xdf\xd5\x29\xf8\x55\x0d\x11\xc6\x8a\x41\xb4\xfc\xa4\xeb\x69\xde\x6c\x0b\x5f\x03\xf1\x6d\x9f\x91\x3d\x40\x16\x50\xfe\x66\x9e\x71\x6e\x77\x55\xa1\x6a\xb6\x16\x17\xe0\xd5\x91\x18\x88\x98\x67\x4e\xcf\x14\xcd\x5d\x2a\x1b\xfd\x55\xeb\xa0\x36\x37\x6a\x83\x66\x31\x24\x31\x00\x00\x00\x00\x00\x00\x11\x01\x9e\x6c\x97\xa5\x17\xa0\x7f\xbd\xb4\x30\xc1\x13\x78\x04\x58\xdd\x6d\x9c\x9f\xef\xe9\x69\x87\xfd\x24\xaa\xee\x19\xc4\xa7\x77\x1c\x76\x47\xf8\x50\x44\xe9\xc9\xfd\x88\xdb\x91\x9a\xe9\x13\x77\xb6\xcb\xf5\x74\xa7\xf7\xe6\xba\x62\xd0\x40\xbc\x8a\x0c\x55\x54\x78\xd0\x96\x36\x9f\x59\xed\x58\x5d\x38\x6c\x14\xbf\xf7\x47\x99\x94\x12\xdc\x83\x7e\xf0\x8e\x2b\xd3\x11\x91\x8c\xc6\xa5\xb3\x5a\x9c\x19\xff\x48\xef\x1b\x9e\x4d\xb3\x4b\xff\xd5\xdf\x1f\xe7\x0f\x15\x77\x77\xc1\x09\x8d\xd6\x7f\x45\xec\xf8\x1d\x69\xdb\xd6\xe3\x11\x2c\x01\xb6\x32\x72\xf5\xe9\x8a\x20\xe6\x84\xa4\xe0\x21\xbb\xda\xf0\x32\x32\xef\x0a\x05\xc7\x3a\x86\x08\x50\x5e\xd5\xb9\x29\x3c\x79\x02\x4a\x76\x94\x9b\x8d\xd9\x00\xfc\xca\x6f\xf4\x48\x0c\x40\x00\x00\x00\x00\x00\x07\x6f\xf5\x51\x1f\xfe\xf9\xb4\x0c\x88\x05\x6e\x76\x12\x71\x28\x07\x85\x1e\x17\x86\x90\x66\x9e\xbf\x8e\x35\x0c\x96\x6c\xe7\xe5\x35\x68\x0f\xa4\xff\xe6\x89\x3f\xdc\xf4\xb2\xfb\x71\xc9\x34\x96\x7c\xb5\xf1\xe5\x84\x9f\xff\x32\x9c\x96\x85\x67\xbb\xd3\x1e\x4c\x2a\x84\xb3\xf1\xe2\x30\xd7\xa9\xdf\xfe\x79\x2c\x46\x49\xc2\x99\xc5\x82\x35\x5a\xfb\x77\x3c\xfc\x49\xe6\x76\x5c\x08\xae\x5b\x0b\xc1\xb8\xff\x0b\x1e\x21\xb9\xc7\x39\xa4\xda\xb4\x9f\xd7\xc9\xc9\x6a\xd6\x87\x84\x51\xfd\xdf\x85\x77\x42\x88\x06\xef\xe7\x30\xe6\x48\x9c\xd7\xa7\xd2\x7c\x3a\x36\xcc\x90\x51\x52\xc7\x35\x7a\xcb\xc1\xab\x7c\xb2\xbf\x2a\x6b\x81\x4f\x89\xca\x49\xf9\x26\xf1\xf0\xe1\x7c\xab\x32\x46\xcb\x8a\xaa\x44\x86\x2a\x8d\xcc\xca\x02\xc7\x06\x6f\x0e\x9a\xf6\x13\x4c\xd2\x35\x44\x32\x49\x24\xaa\x85\x12\x5f\xac\xfa\x07\x54\xa1\xef\x0c\xda\x27\x74\x81\xcf\x1c\x69\xb6\xcb\x98\x37\x78"},
{7,3,1342,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xf6\x85\x3d\x9b\xef\x2e\x47\xfd\x99\x57\x44\xbd\x00\x4c\x12\x25\x1d\x52\x09\xd6\xcb\x4b\xdd\xd5\x74\xaa\x0a\x2f\x86\x67\xf4\x77\x94\x83\x94\x43\x6e\xaf\xfe\x7d\xa1\x96\xb2\x68\x1d\x15\xd5\x4a\xe5\xf0\xf7\x0b\x71\x2e\xd9\x8f\x09\xc9\x4b\x4d\xb4\x00\xf7\xb6\xa5\x85\x5e\xf1\x19\x3f\x56\xfe\x21\xe4\xd9\x53\xaa\x3d\x23\xa3\xdd\xc4\x88\x6e\xa5\x31\x62\xef\x6d\xc0\xa2\x3f\x24\x64\x44\xa7\x7f\x7d\xd6\x7e\xf6\x8e\x84\x90\xf7\xa7\xef\x39\x6b\x10\x75\xf2\x9c\x87\xbc\x53\x4b\x56\x38\x59\x13\xda\x4f\xaf\xeb\xf1\x22\x11\x75\x75\xdd\x45\xe1\x8c\x3b\xaf\x50\xa1\x10\x37\x64\xb7\x18\x1c\x10\x84\x86\x00\xde\x74\x85\xfb\x49\x6a\x85\xdb\x7d\xab\x86\x5b\x92\xfc\x8c\x70\x45\x70\xa7\x50\x55\x8e\x98\xa9\x60\x3b\x48\xf3\xfa\xaa\xb1\xc7\x50\x46\xbd\x99\x4b\xbb\xaf\xd3\x5d\x83\x0f\x57\xfa\xc0\xc8\xbc\x7a\x38\x21\x09\x11\x88\x00\x00\x00\x00\x00\x00\xf4\xc4\xfb\x77\xd8\x00\x5e\x66\xd8\x87\x5c\xf2\x4d\x3a\xbe\x4d\xc1\xeb\x4f\x9c\xc8\xbd\x2f\xbc\x5f\x8c\x0e\x52\xfa\x37\x9d\xfb\x9e\xe2\xa1\x76\xbd\xd8\x1a\x38\x70\xf7\x22\xfa\x9a\xee\x25\x59\x33\x24\xa4\xce\x7f\x10\xef\x3f\x35\x87\xbe\x2d\x96\x91\x08\xfe\x90\xed\xb5\xfd\x1f\xa6\x09\x79\x26\x58\xb6\x56\xd4\x30\x6f\xe7\x5a\x3f\xe3\x59\xce\xf3\x07\x56\xc3\x24\xba\x13\xd2\x53\x82\x43\x9f\xae\xb9\xff\x43\x0d\x57\x41\x68\x8d\x93\x77\x3c\xb3\x8c\x0d\x04\x00\xe6\x0c\x7a\x1c\x26\x4f\x72\xd7\xe1\xf0\x91\x48\xfb\xf2\xd4\xb7\x00\x02\xa3\x4e\xcf\xda\xe2\x48\x06\xd5\xd9\x9d\x19\xa7\x1a\x95\xde\x43\x95\x81\xf1\x42\x01\xcb\xf7\xd4\x04\x53\xee\xc8\x47\x0f\x7f\x6c\xad\x57\xbe\x6e\xd5\x1e\x07\xab\x00\x07\x58\x00\x8b\x1f\xb3\x20\x1f\xb4\x10\x44\x90\xc4\x00\x00\x00\x00\x00\x00\x7d\x66\x49\x57\x84\x83\xcf\x3a\xb5\xb1\xed\xf1\xf0\x73\x37\xdf\x77\x7b\xe1\x4d\x0e\xf7\xfe\xe8\x78\x63\x56\x69\xf6\x98\x8c\x83\xb7\x92\x44\x76\xe1\xc7\xfd\x73\xfc\x5e\x9c\x38\x1d\x0f\x0f\x31\x4d\x15\x07\xf3\xa1\x88\x64\xa5\xef\x3a\x4b\xec\x22\x13\x0e\x3a\xef\xfc\x87\x18\xc0\x18\x47\x02\x1f\x3f\x16\x7f\x2d\x6b\xf8\xc4\xb6\xb3\x64\x5e\xcf\x2b\x2a\xbb\x4a\xbe\x89\x0e\xb0\x6e\x9c\x8d\xd2\x98\xe9\x96\x4d\xdf\xe3\xef\x4d\xed\x43\xe7\xfa\x5f\xb7\x8c\xd2\xdf\xb8\xab\x80\x60\x3b\x7b\x45\x19\x98\x76\x63\xc5\x4d\x40\xb7\x5a\x84\xb6\x99\x2d\xfb\xbe\xd3\x35\x75\xe2\x39\x55\xbe\xef\x47\xe3\xea\x92\x65\xb8\x5e\x69\x0a\x16\xbc\xf1\xbe\x7d\xd7\xc5\xa9\x46\x04\x24\x06\x20\x00\x00\x00\x00\x00\x03\xf1\x20\xbf\x35\x84\x2a\x93\x9c\x50\xc2\x91\xf5\xb1\xe6\x6c\x74\x74\xd9\xf7\x82\xd4\xc7\xef\x2b\xf3\x21\xb5\xb2\x4f\x3f\xb8\xb4\xab\xa0\x94\x05\x0b\x28\x5c\x35\xff\xf4\xff\x76\xd0\x20\x60\xe6\xfe\xa4\x76\xd8\xc0\x46\xf5\xc4\x07\x8a\xa9\x1e\x56\x9e\x14\x7d\xa1\xb7\x26\x5f\xdb\x5c\xd8\xbf\xe1\xe5\x66\x20\x1b\xd4\xdf\x1b\xae\x9f\x1e\x1f\x30\xb7\x4e\x31\xca\x3f\x36\x0f\x7a\x0c\x93\xe8\x75\x6c\x00\x40\x5b\x05\x72\x0e\xdb\x44\x7f\x7f\x9c\x74\x47\x8a\xf6\x87\xc0\xb6\x5e\x42\x0c\x64\xf1\xb8\x1d\xe2\xbe\x08\xda\xf1\x46\xde\x92\xd4\x6b\xda\x7d\x02\x30\xd2\x59\x12\x43\xb2\xc1\x44\xa2\x02\xd4\xdd\x00\xd4\x48\x3d\xd6\x8f\xa6\x9a\x05\x03\xfe\x60\xeb\x91\x45\x6a\x42\x39\xac\x50\x55\xb3\xf9\xaf\x1b\xec\x59\xb8\x10\x62\x95\x74\xb5\x04\x90\x48\x8c\x40\x00\x00\x00\x00\x00\x07\xc2\x61\x0a\x2f\x70\x43\x29\x8e\xf9\x5a\x36\x00\x2d\x5c\x98\x88\x74\x87\x88\xf1\x7f\x67\xfe\x96\xe4\x1e\x7a\x03\xf1\x02\xec\x02\xfa\xb7\xfe\xf4\xff\x58\x8b\xac\x67\x2b\xfb\x12\x8e\x7d\xdc\xd2\x7c\x09\x73\x17\xfd\xe5\xd0\x22\x1c\x02\x96\x66\x2f\x85\x5c\xba\x0e\x8f\xd8\x5c\x7e\x34\x7a\x3d\xe9\xe2\xe9\x2f\xdf\xd6\xa7\xb5\xe8\x2e\x33\x09\x82\x53\xeb\x10\x31\xff\x7d\x54\xd6\x97\xdd\x7b\xf4\x53\x0c\xf7\x1c\x54\x7b\xbb\x87\x80\x28\xe5\xa9\x2e\x43\xb2\x3e\x3e\x20\xc4\x60\x98\x96\x83\x5e\xce\x05\x10\x1e\x42\xe2\xce\xe6\xf9\xc7\x85\x78\xd0\x7a\x9d\xbf\x3d\xe1\x4f\x0c\xde\xb6\x3e\xdb\x00\x29\x92\xb6\x8d\x08\xe1\x4f\xa3\xfa\x89\x68\x3f\xfb\x87\xf3\xeb\xed\xd5\xe9\xb8\x39\x99\xc2\x48\x62\x00\x00\x00\x00\x00\x00\x2e\xc0\x19\x52\xec\x73\xb1\x07\x84\xe1\xc5\xbc\x94\x15\x6a\x3e\xc5\xd1\x7f\xbf\x26\x5b\x33\xa0\x03\x2d\x2e\x5b\x8f\xc1\xec\x1a\x34\xa6\xb0\x02\xd5\x11\x67\x16\xd1\xa9\x3f\x2f\x66\x30\xe3\x37\xde\x00\xc3\xc3\x87\x94\x01\x12\xed\x2f\x58\x74\x5e\xbd\x3b\x0a\xee\x5b\x61\xa7\xf2\x7d\xeb\x0e\x78\x77\x31\x6b\xda\x91\x65\xff\xc6\xf5\x49\xcd\x02\x93\x59\xe0\x5e\xf8\xd7\x90\x2f\x54\x99\x7e\xe5\x78\x74\x4e\x77\xa4\xc0\xec\xd7\xff\x09\xbf\xce\x37\xe7\x11\x9a\xa2\xbd\x62\xf7\xf6\xd1\x60\x5f\x8e\x19\xdc\x21\x9e\x2e\x93\xc8\xd1\x67\xcf\x10\x51\x34\xbf\x6b\x83\x47\x4a\x86\xe8\xcb\xd7\xcd\x03\xb0\x4a\xf1\xbb\xaf\x17\xe2\x09\x57\xff\x41\x41\xeb\x20\x50\x47\x16\x69\x56\xaf\x6b\x7d\xe9\xbf\x0b\x0d\xd6\x97\xe8\x7f\x84\x21\x7f\x42\xdd\xd7\xeb\xa8\xef\xb5\x16\x46\x73\xd9\x9c\xe6\x24\x06\x20\x00\x00\x00\x00\x00\x03\xfd\x48\x3b\x56\xe4\xdb\xfa\x7e\x19\x2b\xf7\x7f\xb6\x0a\x4e\x80\x42\x65\xd7\xea\x70\x01\x90\xf6\xb0\x06\x2a\x69\xb6\x1a\x77\x53\xd0\x86\x0a\xac\xed\xe3\x7c\x90\xaf\xd7\xeb\xbb\xf6\x53\xa5\xfe\x45\x67\x07\x95\xbd\x10\xbf\xf9\x21\xdf\x0d\x99\xf4\x4c\x67\x3c\x6d\x4d\x74\xf6\x92\x17\xae\x88\xc9\xa3\xf4\xe6\x21\x87\xab\x09\xfd\xf0\x2d\x22\xd8\xfb\xe7\xe4\xce\x2b\x5d\xa4\x5c\xfb\xd4\xf3\x68\x76\xf9\x56\xad\xe7\x4b\x14\x2f\x8e\xb0\xa1\xb2\x4f\xcb\xe7\xd9\xdd\x0d\x13\x55\x69\xa0\x93\xff\x84\x10\xc5\xcf\x16\x95\x02\xc9\x35\xa7\x40\x00\xc3\xb8\xb6\xab\x79\x13\x21\x26\x4a\x7e\xc3\xae\x99\xc2\x80\x58\x10\xc2\x55\x01\xec\x9b\x6a\x45\xe2\xa6\x87\xaa\xc9\x59\x28\xd4\xa5\x29\x48\x51\x25\xfa\xcf\xa0\x75\x4a\x1e\xf0\xcd\xa2\x77\x48\x1c\xf1\xc6\x9b\x6c\xb9\x83\x77\x80\x00"},
{7,4,1359,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x57\xf6\x7f\xff\xe3\xbd\xb9\xf8\x4f\x1d\x92\x7a\x12\xb6\x8b\xbb\x36\x53\xe8\x2b\xca\x49\x4d\x09\xec\x88\xff\xa6\xad\x3e\x74\x2c\x2e\x77\x14\x7b\x3c\x47\x0d\x82\x0b\xda\xbc\x06\x3d\x99\x98\x46\xed\x9c\x8d\x4c\xfd\xd8\x80\x0d\xed\x79\xf4\xaf\x59\x99\x78\xad\x8a\x00\x03\xb1\x6b\x85\xa5\xaf\x51\xcf\x78\x06\x34\x09\x43\xb3\x16\x5d\x84\x39\xb0\xf1\x9d\x90\xc2\xf0\x2d\xa6\x9f\x0e\x02\x06\x7d\xff\x71\xfc\xf8\xf4\xe9\x9d\x31\x24\x96\xe1\xee\xf7\xe7\xe6\x66\x93\x97\x28\x5b\x7c\x01\x57\x55\x70\x88\xfd\x94\x6d\x18\xa3\xea\x8e\x8f\x32\x73\x62\x46\x23\xff\x22\x47\x83\x7f\x4f\xf9\xf1\xf9\xa7\x6a\xfa\x39\x7b\x81\x7f\xf8\xaf\xde\x1e\x29\x4d\x73\x14\x20\x1f\x71\x53\x00\xbf\xfc\x8c\x28\x29\x28\x6a\x9c\xd9\x45\xf2\xac\x48\x8c\x40\x00\x00\x00\x00\x00\x07\xcf\xa2\x51\x55\x73\xad\x1a\x0d\x8a\xc3\xe4\x0c\xcf\x35\xc7\xe8\xa8\x9b\x8b\x98\x93\xfe\xfd\x2d\x1d\x78\x44\xd6\x2c\x14\x65\x86\x4e\x83\x58\x76\x3c\xf1\x53\xc0\xf6\x85\x02\x7e\x5b\xfd\x2d\x00\xe6\x74\xf8\xec\x1d\xb1\x63\xb0\x7f\xea\x77\xff\x70\x96\x26\xe0\x08\x6d\xf5\x6a\x32\xf1\xb4\xdf\xfc\xea\x27\xb8\x35\x1e\xbd\xa0\xf6\xdf\xf4\xd4\x49\x00\xec\x5f\x17\x0a\x52\x5e\x49\x2c\x68\xbe\xf2\xc3\xe7\xe3\xb9\x54\x00\xd4\xa8\x9f\xf4\x7b\x59\x0d\xa8\x40\x58\x76\x96\x57\xd5\x03\x10\x63\xff\xbf\xfb\xda\x57\xb7\x35\x5e\x80\x7c\x28\xbe\xa9\x1f\xe5\x2c\xfb\x90\xb9\x72\x80\x8f\x0d\xa5\xff\x11\x99\x2f\x62\xa9\xc7\x7d\x64\x7c\xfd\x1d\x2b\x5a\x27\xa3\x74\xbb\x1c\xf2\x25\x52\x2b\xc2\x6f\xb9\xfa\xb3\xbf\xbf\xf2\x6a\xa8\xfb\xc4\x82\x4e\xfa\xac\x76\xef\xfd\x59\xa2\x79\x94\x24\x86\x20\x00\x00\x00\x00\x00\x03\xfe\x82\xba\x4a\x58\x52\x26\xc7\xc1\xd2\xe4\x55\xce\xbf\x27\xf8\xea\xbe\xcc\x1d\xc8\x40\x93\x5a\xb7\xe4\x79\x8e\x01\x34\xaa\x14\x46\x83\xb8\xfb\xfb\x44\x76\xa2\x1d\xf1\xe5\xba\x4a\xda\xb6\xc2\x44\xed\xc7\x20\x61\x1d\x3a\x2d\xd5\xb0\x3f\x68\xca\x40\x68\x39\xfc\x1b\x07\xcf\xab\xb6\x1e\x53\xa8\xb2\x58\xbd\x8a\xff\x0f\xa1\xa6\xb5\xf7\x46\xca\x04\x2e\x64\xcb\xe2\x22\x44\xbe\x29\xb3\x3e\x62\x4e\xe1\x99\x7f\x42\xa0\x1c\x0b\x33\xba\xb0\x7e\x1e\xc7\xd7\x96\x4b\x4b\xea\x8b\x3f\xc8\x45\x7e\x63\x3f\x3d\xcc\xc4\xff\xaa\x89\xe4\x0a\x9e\xbf\xe2\x96\xea\xc2\x86\x20\xbc\x73\x01\x04\xfd\x35\x6f\xe8\x5c\xb2\xdf\xfe\xd1\x11\x4b\x3e\x29\xea\x90\xae\x6c\xb3\xcc\xa4\x86\x97\x07\x0d\x19\x8b\xdc\xc5\x2f\xc4\x48\x0c\x40\x00\x00\x00\x00\x00\x05\xdd\xbe\x8d\xea\x9c\xef\x4f\xec\x22\xd1\xd7\x50\xe0\x87\xc3\xb0\x18\x2b\x48\x79\xe6\x8f\xf3\x7f\x90\x13\x22\x08\x22\xf1\xee\x3d\x97\x1b\x06\x46\x87\x3a\x51\x3c\xd8\x8a\xfc\x58\x75\xcf\x7f\xde\x39\x72\x22\x4e\xfb\x3e\xfc\x38\xed\x1e\xb1\x79\x32\xe7\xfd\x72\x72\xce\x5c\x52\xd1\xff\x55\x63\xc3\x66\x8b\x27\x4c\x94\x90\xf0\xd5\x16\x54\x28\x79\xec\x1f\x43\xd6\xdf\xba\x4f\x75\x6a\x92\xd4\xee\x4d\x7f\xff\xf7\x22\xca\x7a\x6d\x91\x25\xff\x88\x8d\xfc\x66\x6a\x60\xd9\x2a\x7c\x7f\x82\xea\x2b\x02\x81\x09\xcb\x50\xb5\x2e\xe3\x6b\xe2\x18\x28\x5d\x1e\xff\x29\xe0\xc3\xe5\x63\x91\x4f\x31\xb0\xcf\xfa\x11\xa7\xf7\x5b\x17\xfa\x78\xa8\x7d\xe1\x49\x1d\xdb\xe3\xd5\x77\x0d\x08\xeb\xba\xd8\x47\xd5\x1b\xee\x43\xc4\x88\xc4\x00\x00\x00\x00\x00\x00\x59\x75\x5c\x2b\x75\xbf\xd7\xae\xb0\xf5\xd4\x0a\x04\xcf\x7c\x09\x63\x47\xcc\x1a\x4b\xa9\x43\xfe\xf0\xae\x99\x20\xa8\xef\xd1\xdf\x2c\x73\xfc\x3e\x0c\x14\xf9\xa3\x75\x8a\x22\x8d\x9a\x73\x63\x70\xcc\xb3\x99\x8a\xcc\x61\x34\x7c\xfe\xe4\x97\x60\xea\x83\x7e\x6a\x6a\xfd\x41\x04\xa5\xd6\xcf\xf4\x2a\x33\xa3\x91\xa7\x52\x37\xbd\x2e\xb6\xbf\xf8\x4c\x87\xcb\x7c\xd9\xb0\x77\x11\xa4\xa5\xd8\x2d\x37\xff\x63\x61\xf3\x8a\x97\xda\x23\x90\xe2\x07\x38\x83\x25\x2e\xe3\x22\x5c\x82\xe1\x51\xa8\xf1\x2b\xf1\xd3\x1c\x05\x79\x2e\x92\xa0\x80\x28\x37\x56\x97\x1e\xaf\x26\xf1\x0c\xa9\x21\x5b\xe3\xac\x51\x76\x98\x19\xf9\xff\xa5\x18\xf9\xca\x27\x17\x49\x31\xc8\xfe\xd2\xe8\xd7\x0e\x50\xae\x75\x4c\x77\xdf\x6d\xda\x5f\xa1\x5c\xfe\x96\xd3\x23\x45\xb2\x7f\xd6\x8c\x0b\x41\x85\x5a\x03\x90\xd5\xdf\x40\x50\x98\x92\x18\x80\x00\x00\x00\x00\x00\x0f\x9e\x31\x3e\xd7\x9f\x6a\x37\xcc\xdc\xb0\x7a\x49\xcf\x70\xfc\x73\x12\xcb\xc6\x8f\x19\xc3\x72\xae\x77\xeb\xf3\xa2\x14\xd8\x1f\xbe\x2e\xeb\xa5\xfc\x59\x0f\x91\x34\x99\x45\x70\xef\x57\x88\xb1\xed\x14\xc7\x61\x0d\x04\x76\xd7\x81\xdf\xf8\xe1\x48\x7d\x71\xe7\x82\x23\xd9\xfe\x04\x8f\xf5\x30\x7f\x16\x85\x7e\xce\xb0\x60\x5f\xf5\xf3\xdf\x0b\x7b\xc0\x0b\xed\xf8\x28\xce\x0d\x7a\x54\x75\xb8\x7f\x0d\x6d\x95\xba\xbf\x10\xec\x6f\x43\x51\xef\xa0\x63\x7f\xba\xe9\xa5\x92\x9c\xe1\xf0\xbd\x3d\x4f\xbb\x00\x98\xfe\xd2\xd8\xfa\xf1\x32\xb8\xfc\x84\xb0\x85\x94\xca\x1e\x11\x73\x7f\xbf\x0d\x6d\x2c\x0c\xb4\x12\xa2\xbc\x1b\xe2\xe4\x07\x7b\xfe\xa9\x2b\xf8\x1c\xa3\xdb\xcc\x0e\x20\x10\x12\x03\x10\x00\x00\x00\x00\x00\x01\xf9\x93\xe7\xee\xe7\x7d\xda\x13\x17\xa1\x92\x4c\x39\xf1\x28\xba\x61\x65\x68\xb4\x85\x00\x7e\xb8\x39\xdd\x6b\xed\x54\xbc\xba\xfc\xb3\xd8\x5d\x43\x43\x8c\xe1\x42\xe9\x36\x22\x93\x92\x3c\x9b\x7a\x2a\xa8\xc8\x22\x78\x23\x15\xde\xcf\xa2\xdf\x05\xe1\x79\x90\x0d\xdb\x86\x5e\xfc\xac\x44\xce\xe9\xef\x49\x88\x02\x70\x21\x4d\xa3\x61\x12\x40\x51\x4d\x45\xf7\x56\xfe\x49\x97\x6f\x65\xff\x9d\xa1\x6f\xf5\xc3\xff\x87\xcb\xf9\x8c\xd7\x89\x81\xff\xe8\xd7\xe6\x2d\x54\xc1\x0f\xfc\xd4\xea\x65\xf6\x6c\x69\x76\x9e\x80\x03\xae\x22\xd4\x13\x77\xf8\xde\x99\x9e\x62\x4f\xe2\xfe\xfb\xd8\x84\xf7\x5a\xc0\xdb\x55\xf4\xdf\xf3\xba\xc8\x66\xe4\x06\x4d\xb6\x2e\x3c\x01\xae\x1f\xfe\x07\x5c\xec\xf4\x5f\x0a\x17\x10\x02\xea\x1a\x85\xb4\x69\x11\x5e\xa1\xf0\xb9\xf2\x2e\x12\xed\x33\x41\x0b\xe9\x65\xa0\xcc\x2f\xba\x88\x64\x92\x49\x55\x0a\x24\xbf\x59\xf4\x0e\xa9\x43\xde\x19\xb4\x4e\xe9\x03\x9e\x38\xd3\x6d\x97\x30\x6e\xf0"},
{7,5,1313,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x59\x11\xb7\x4a\xff\x4a\xb7\x77\xe1\x3f\xe2\x99\x1b\x5d\xdd\x1e\xcf\x74\xcf\xc8\xeb\x79\xf6\x20\x87\x86\xe6\x60\xfb\x1a\x66\x1a\x03\xbc\xf8\x2b\x1b\xd8\x5b\xdf\xf3\xfa\xab\x2f\x9f\x3e\xa5\xdc\x83\xed\x83\x33\x8e\xad\x83\x11\xc0\x16\x6e\x46\x4f\xbe\x9f\x04\x06\xec\x7b\xd2\x42\xdf\x2a\xca\x34\x06\x7c\xf7\x8d\xa7\x2a\x32\xf9\x99\xc5\xf6\xcc\xfc\x3c\x76\xec\x3c\xcc\xf9\x69\x15\x7b\x92\x1f\x43\x7d\xb4\xfc\x4e\xe6\xda\xef\x1b\x0d\x72\xae\x8d\xfe\xf8\x67\xcd\x31\x84\xb7\x07\xe2\xc9\xa2\x37\x14\x65\xbf\x4a\x41\x21\x03\xe2\x07\x17\xf6\x04\x4e\x8d\x63\x96\x88\x76\x4e\x8d\x28\xff\xa2\x9b\x84\xc3\x81\xac\xd7\x14\xde\x20\x2e\xd5\x74\xc1\x21\x86\xf7\x4e\xc5\x6c\x1a\xa8\x53\x37\xd9\xf1\x42\x9d\xd5\xf0\x91\x18\x80\x00\x00\x00\x00\x00\x08\x3c\x75\x50\x0a\xd2\xff\x79\x33\x3e\x88\x00\xed\x7b\xa8\x2c\xe1\x53\xc8\x2e\xdd\xd7\x89\x5f\x43\xd4\xfc\xed\x9d\x4d\xf9\xba\xed\x5d\xf3\xa9\x16\xf1\xb8\x21\xbb\x64\x25\xa5\x4f\xe1\xa3\x4b\x2e\xa8\x62\x8f\x79\x8a\x24\xc5\xc7\x02\x3e\x2b\xe0\x11\x19\xd1\xa0\x8b\xf6\x62\xa2\xf5\xff\xc1\x5a\xfa\xe4\xaa\x7d\x3d\xec\x2b\x8b\xf7\xb6\x7e\xb6\xb8\xb6\x9c\xdc\xb0\xae\xb3\xcf\x08\x47\x05\xe7\xcf\x6a\x0c\xf4\x38\xd4\xfd\xe8\x0e\xaf\x8d\xfc\xdb\xa3\x04\x5c\x37\xca\xb0\xe2\xb7\xbd\xc5\x2b\x0a\xc0\xab\x8d\xab\x41\x77\x2a\xd1\x80\x30\x73\x38\xe4\x80\x84\xf3\x58\x05\xc6\x9d\x51\xc4\x9c\xb0\x17\x42\x23\x47\xa6\x3c\x65\xfd\xe9\xce\x2e\x25\x58\xc8\xe6\x93\xa4\xeb\x6d\x73\xe5\x06\x78\x92\x18\x80\x00\x00\x00\x00\x00\x0f\xb4\x24\x2c\xa3\x79\x7a\xdf\x99\x6a\xa9\xe5\x2a\xeb\x63\xa0\xe0\xbb\x21\x7d\x45\x44\x1e\xec\x05\x68\x29\xa4\x7b\xd5\x30\x81\x8f\xe2\xaa\x41\xb4\xd3\x32\x98\x4e\xf5\xfe\x87\xc7\x43\xca\x16\xa4\x2e\x97\x65\xe2\x78\xcc\xca\x37\x89\x31\x1a\x19\x92\xe6\x8d\x53\xa5\xf6\x1b\xd0\xe7\x65\x7c\x1e\x3f\xec\x82\x88\xfd\x9c\x9b\xe3\x8c\x46\xda\x7f\x03\x59\xff\xdf\xde\x58\x4c\x84\x6a\x1a\x6c\xc4\xde\x6e\x92\x90\x3d\x79\xc2\x25\xaf\x0e\xed\x9c\xa7\x78\xd8\x79\x9d\x14\x36\xd5\x21\x91\xf2\x32\x46\x72\xe9\xcf\x7f\xc1\xfe\x78\xde\xaa\xd3\xc7\xfc\xac\x9d\xef\x1b\xbf\x5f\xeb\x29\xe7\xc6\x40\x53\x3f\x75\x9f\x01\xee\x41\xb0\xb6\x4a\xaf\x6d\x41\x4d\x98\xfe\xa5\xa8\xe0\x04\x3a\x87\x7d\x89\x40\x45\xea\xc5\x2d\x51\x20\x31\x00\x00\x00\x00\x00\x00\x1f\xfc\x69\x0e\x52\xbe\x45\xa4\xc1\x1d\x27\x1d\x29\x97\xb0\xa3\xa6\xdb\x48\x7c\x01\x3b\x1f\x10\x90\x6f\xde\x6c\x57\xcb\x98\x57\x69\x90\x8e\x0c\xe8\x0b\x54\xe9\xdf\x03\x74\xc2\xed\xee\x28\x4f\x0c\xc3\x72\x29\x1b\xfc\xd9\x42\x29\xba\x90\x9d\x4e\xbb\x6f\xe4\x71\x89\xf3\xb4\xdd\x41\x9c\x36\xa0\x3f\x92\x57\x0e\x98\x0c\x87\x5c\x21\x8c\xa1\x7c\xd7\xf4\x3c\x9e\xd0\xd7\x2e\x89\x4d\xb0\xa5\x40\x21\xc4\x4f\x86\x1e\x17\xa9\x70\xe9\xf2\x94\x37\x5f\xc7\xeb\x7a\x7f\x7f\x2f\xc0\x57\xcf\x07\xd3\x8a\xd7\x40\x78\x29\xe4\x31\xa8\xf8\x58\xa0\x3f\xd8\xf9\x1d\x1a\x00\x6e\x76\x80\xce\x45\x5f\xd0\x38\xef\x2b\x4d\x39\x56\x35\x78\x35\x56\x41\xec\x21\x6f\x35\xc0\xfd\x05\xb4\x03\x9c\x01\xc6\x3e\x79\x14\x05\xbf\x81\x29\xb3\x21\xf3\x36\x70\x91\x18\x80\x00\x00\x00\x00\x00\x0d\xc4\xcf\x3f\x7b\x3f\x9b\xc8\xf1\x0a\x5f\xc1\xcf\xf2\x6d\xfe\xf7\x17\xad\xfd\xf1\x39\x7f\xe3\xb6\x7d\x99\x06\xd5\xaf\x48\x6c\x97\x95\x5b\x32\xfc\x50\x75\x15\xb5\x60\x9f\xa0\x87\x2d\x1e\x5e\x4a\xff\x04\xbd\xf4\x06\xc8\x23\xdf\x70\xb3\x02\x95\xae\x8c\xf4\xd8\xba\xd9\xaf\xf5\x9d\xd7\x52\xf5\x5e\x35\xe5\xf4\xf9\x2c\xf7\x71\xc5\xe2\xd2\x2e\x3f\x7f\xa5\x74\xff\x80\x80\x0c\xea\xf7\xd0\xd4\x7a\x26\xbe\xcd\x5b\xe9\xef\x7d\xcf\xdf\xd5\x29\xf8\x55\x0d\x11\xc6\x8a\x41\xb4\xfc\xa4\xeb\x69\xde\x6c\x0b\x5f\x03\xf1\x6d\x9f\x91\x3d\x40\x16\x50\xfe\x66\x9e\x71\x6e\x77\x55\xa1\x6a\xb6\x16\x17\xe0\xd5\x91\x18\x88\x98\x67\x4e\xcf\x14\xcd\x5d\x2a\x1b\xfd\x55\xeb\xa0\x36\x37\x6a\x83\x66\x31\x24\x31\x00\x00\x00\x00\x00\x00\x11\x01\x9e\x6c\x97\xa5\x17\xa0\x7f\xbd\xb4\x30\xc1\x13\x78\x04\x58\xdd\x6d\x9c\x9f\xef\xe9\x69\x87\xfd\x24\xaa\xee\x19\xc4\xa7\x77\x1c\x76\x47\xf8\x50\x44\xe9\xc9\xfd\x88\xdb\x91\x9a\xe9\x13\x77\xb6\xcb\xf5\x74\xa7\xf7\xe6\xba\x62\xd0\x40\xbc\x8a\x0c\x55\x54\x78\xd0\x96\x36\x9f\x59\xed\x58\x5d\x38\x6c\x14\xbf\xf7\x47\x99\x94\x12\xdc\x83\x7e\xf0\x8e\x2b\xd3\x11\x91\x8c\xc6\xa5\xb3\x5a\x9c\x19\xff\x48\xef\x1b\x9e\x4d\xb3\x4b\xff\xd5\xdf\x1f\xe7\x0f\x15\x77\x77\xc1\x09\x8d\xd6\x7f\x45\xec\xf8\x1d\x69\xdb\xd6\xe3\x11\x2c\x01\xb6\x32\x72\xf5\xe9\x8a\x20\xe6\x84\xa4\xe0\x21\xbb\xda\xf0\x32\x32\xef\x0a\x05\xc7\x3a\x86\x08\x50\x5e\xd5\xb9\x29\x3c\x79\x02\x4a\x76\x94\x9b\x8d\xd9\x00\xfc\xca\x6f\xf4\x48\x0c\x40\x00\x00\x00\x00\x00\x07\x6f\xf5\x51\x1f\xfe\xf9\xb4\x0c\x88\x05\x6e\x76\x12\x71\x28\x07\x85\x1e\x17\x86\x90\x66\x9e\xbf\x8e\x35\x0c\x96\x6c\xe7\xe5\x35\x68\x0f\xa4\xff\xe6\x89\x3f\xdc\xf4\xb2\xfb\x71\xc9\x34\x96\x7c\xb5\xf1\xe5\x84\x9f\xff\x32\x9c\x96\x85\x67\xbb\xd3\x1e\x4c\x2a\x84\xb3\xf1\xe2\x30\xd7\xa9\xdf\xfe\x79\x2c\x46\x49\xc2\x99\xc5\x82\x35\x5a\xfb\x77\x3c\xfc\x49\xe6\x76\x5c\x08\xae\x5b\x0b\xc1\xb8\xff\x0b\x1e\x21\xb9\xc7\x39\xa4\xda\xb4\x9f\xd7\xc9\xc9\x6a\xd6\x87\x84\x51\xfd\xdf\x85\x77\x42\x88\x06\xef\xe7\x30\xe6\x48\x9c\xd7\xa7\xd2\x7c\x3a\x36\xcc\x90\x51\x52\xc7\x35\x7a\xcb\xc1\xab\x7c\xb2\xbf\x2a\x6b\x81\x4f\x89\xca\x49\xf9\x26\xf1\xf0\xe1\x7c\xab\x32\x46\xcb\x8a\xaa\x44\x86\x2a\x8d\xcc\xca\x02\xc7\x06\x6f\x0e\x9a\xf6\x13\x4c\xd2\x35\x44\x32\x49\x24\xaa\x85\x12\x5f\xac\xfa\x07\x54\xa1\xef\x0c\xda\x27\x74\x81\xcf\x1c\x69\xb6\xcb\x98\x37\x78"},
{8,-1,16,"\x0d\x19\x04\xc0\xc6\x80\x00\x00\x0d\xd4\x21\xdc\xce\x38\x00\x00"},
{8,0,776,"\x92\x03\x10\x00\x00\x00\x00\x00\x01\xed\x0a\x7b\x37\xde\x5c\x8f\xfb\x32\xae\x89\x7a\x00\x98\x24\x4a\x3a\xa4\x13\xad\x96\x97\xbb\xaa\xe9\x54\x14\x5f\x0c\xcf\xe8\xef\x29\x07\x28\x86\xdd\x5f\xfc\xfb\x43\x2d\x64\xd0\x3a\x2b\xaa\x95\xcb\xe1\xee\x16\xe2\x5d\xb3\x1e\x13\x92\x96\x9b\x68\x01\xef\x6d\x4b\x0a\xbd\xe2\x32\x7e\xad\xfc\x43\xc9\xb2\xa7\x54\x7a\x47\x47\xbb\x89\x10\xdd\x4a\x62\xc5\xde\xdb\x81\x44\x7e\x48\xc8\x89\x4e\xfe\xfb\xac\xfd\xed\x1d\x09\x21\xef\x4f\xde\x72\xd6\x20\xeb\xe5\x39\x0f\x78\xa6\x96\xac\x70\xb2\x27\xb4\x9f\x5f\xd7\xe2\x44\x22\xea\xeb\xba\x8b\xc3\x18\x77\x5e\xa1\x42\x20\x6e\xc9\x6e\x30\x38\x21\x09\x0c\x01\xbc\xe9\x0b\xf6\x92\xd5\x0b\xb6\xfb\x57\x0c\xb7\x25\xf9\x18\xe0\x8a\xe1\x4e\xa0\xab\x1d\x31\x52\xc0\x76\x91\xe7\xf5\x55\x63\x8e\xa0\x8d\x7b\x32\x97\x77\x5f\xa6\xbb\x06\x1e\xaf\xf5\x81\x91\x78\xf4\x70\x42\x12\x23\x10\x00\x00\x00\x00\x00\x01\xd3\x13\xed\xdf\x60\x01\x79\x9b\x62\x1d\x73\xc9\x34\xea\xf9\x37\x07\xad\x3e\x73\x22\xf4\xbe\xf1\x7e\x30\x39\x4b\xe8\xde\x77\xee\x7b\x8a\x85\xda\xf7\x60\x68\xe1\xc3\xdc\x8b\xea\x6b\xb8\x95\x64\xcc\x92\x93\x39\xfc\x43\xbc\xfc\xd6\x1e\xf8\xb6\x5a\x44\x23\xfa\x43\xb6\xd7\xf4\x7e\x98\x25\xe4\x99\x62\xd9\x5b\x50\xc1\xbf\x9d\x68\xff\x8d\x67\x3b\xcc\x1d\x5b\x0c\x92\xe8\x4f\x49\x4e\x09\x0e\x7e\xba\xe7\xfd\x0c\x35\x5d\x05\xa2\x36\x4d\xdc\xf2\xce\x30\x34\x10\x03\x98\x31\xe8\x70\x99\x3d\xcb\x5f\x87\xc2\x45\x23\xef\xcb\x52\xdc\x00\x0a\x8d\x3b\x3f\x6b\x89\x20\x1b\x57\x66\x74\x66\x9c\x6a\x57\x79\x0e\x56\x07\xc5\x08\x07\x2f\xdf\x50\x11\x4f\xbb\x21\x1c\x3d\xfd\xb2\xb5\x5e\xf9\xbb\x54\x78\x1e\xac\x00\x1d\x60\x02\x2c\x7e\xcc\x80\x7e\xd0\x41\x12\x43\x10\x00\x00\x00\x00\x00\x01\xeb\x32\x4a\xbc\x24\x1e\x79\xd5\xad\x8f\x6f\x8f\x83\x99\xbe\xfb\xbb\xdf\x0a\x68\x77\xbf\xf7\x43\xc3\x1a\xb3\x4f\xb4\xc4\x64\x1d\xbc\x92\x23\xb7\x0e\x3f\xeb\x9f\xe2\xf4\xe1\xc0\xe8\x78\x79\x8a\x68\xa8\x3f\x9d\x0c\x43\x25\x2f\x79\xd2\x5f\x61\x10\x98\x71\xd7\x7f\xe4\x38\xc6\x00\xc2\x38\x10\xf9\xf8\xb3\xf9\x6b\x5f\xc6\x25\xb5\x9b\x22\xf6\x79\x59\x55\xda\x55\xf4\x48\x75\x83\x74\xe4\x6e\x94\xc7\x4c\xb2\x6e\xff\x1f\x7a\x6f\x6a\x1f\x3f\xd2\xfd\xbc\x66\x96\xfd\xc5\x5c\x03\x01\xdb\xda\x28\xcc\xc3\xb3\x1e\x2a\x6a\x05\xba\xd4\x25\xb4\xc9\x6f\xdd\xf6\x99\xab\xaf\x11\xca\xad\xf7\x7a\x3f\x1f\x54\x93\x2d\xc2\xf3\x48\x50\xb5\xe7\x8d\xf3\xee\xbe\x2d\x4a\x30\x21\x20\x31\x00\x00\x00\x00\x00\x00\x1f\x12\x0b\xf3\x58\x42\xa9\x39\xc5\x0c\x29\x1f\x5b\x1e\x66\xc7\x47\x4d\x9f\x78\x2d\x4c\x7e\xf2\xbf\x32\x1b\x5b\x24\xf3\xfb\x8b\x4a\xba\x09\x40\x50\xb2\x85\xc3\x5f\xff\x4f\xf7\x6d\x02\x06\x0e\x6f\xea\x47\x6d\x8c\x04\x6f\x5c\x40\x78\xaa\x91\xe5\x69\xe1\x47\xda\x1b\x72\x65\xfd\xb5\xcd\x8b\xfe\x1e\x56\x62\x01\xbd\x4d\xf1\xba\xe9\xf1\xe1\xf3\x0b\x74\xe3\x1c\xa3\xf3\x60\xf7\xa0\xc9\x3e\x87\x56\xc0\x04\x05\xb0\x57\x20\xed\xb4\x47\xf7\xf9\xc7\x44\x78\xaf\x68\x7c\x0b\x65\xe4\x20\xc6\x4f\x1b\x81\xde\x2b\xe0\x8d\xaf\x14\x6d\xe9\x2d\x46\xbd\xa7\xd0\x23\x0d\x25\x91\x24\x3b\x2c\x14\x4a\x20\x2d\x4d\xd0\x0d\x44\x83\xdd\x68\xfa\x69\xa0\x50\x3f\xe6\x0e\xb9\x14\x56\xa4\x23\x9a\xc5\x05\x5b\x3f\x9a\xf1\xbe\xc5\x9b\x81\x06\x29\x57\x4b\x50\x49\x10\x5d\x42\x1d\x0b\x94\x69\xce\x08\x5c\xc1\xbb\xc0"},
{8,1,759,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x57\xf6\x7f\xff\xe3\xbd\xb9\xf8\x4f\x1d\x92\x7a\x12\xb6\x8b\xbb\x36\x53\xe8\x2b\xca\x49\x4d\x09\xec\x88\xff\xa6\xad\x3e\x74\x2c\x2e\x77\x14\x7b\x3c\x47\x0d\x82\x0b\xda\xbc\x06\x3d\x99\x98\x46\xed\x9c\x8d\x4c\xfd\xd8\x80\x0d\xed\x79\xf4\xaf\x59\x99\x78\xad\x8a\x00\x03\xb1\x6b\x85\xa5\xaf\x51\xcf\x78\x06\x34\x09\x43\xb3\x16\x5d\x84\x39\xb0\xf1\x9d\x90\xc2\xf0\x2d\xa6\x9f\x0e\x02\x06\x7d\xff\x71\xfc\xf8\xf4\xe9\x9d\x31\x24\x96\xe1\xee\xf7\xe7\xe6\x66\x93\x97\x28\x5b\x7c\x01\x57\x55\x70\x88\xfd\x94\x6d\x18\xa3\xea\x8e\x8f\x32\x73\x62\x46\x23\xff\x22\x47\x83\x7f\x4f\xf9\xf1\xf9\xa7\x6a\xfa\x39\x7b\x81\x7f\xf8\xaf\xde\x1e\x29\x4d\x73\x14\x20\x1f\x71\x53\x00\xbf\xfc\x8c\x28\x29\x28\x6a\x9c\xd9\x45\xf2\xac\x48\x8c\x40\x00\x00\x00\x00\x00\x07\xcf\xa2\x51\x55\x73\xad\x1a\x0d\x8a\xc3\xe4\x0c\xcf\x35\xc7\xe8\xa8\x9b\x8b\x98\x93\xfe\xfd\x2d\x1d\x78\x44\xd6\x2c\x14\x65\x86\x4e\x83\x58\x76\x3c\xf1\x53\xc0\xf6\x85\x02\x7e\x5b\xfd\x2d\x00\xe6\x74\xf8\xec\x1d\xb1\x63\xb0\x7f\xea\x77\xff\x70\x96\x26\xe0\x08\x6d\xf5\x6a\x32\xf1\xb4\xdf\xfc\xea\x27\xb8\x35\x1e\xbd\xa0\xf6\xdf\xf4\xd4\x49\x00\xec\x5f\x17\x0a\x52\x5e\x49\x2c\x68\xbe\xf2\xc3\xe7\xe3\xb9\x54\x00\xd4\xa8\x9f\xf4\x7b\x59\x0d\xa8\x40\x58\x76\x96\x57\xd5\x03\x10\x63\xff\xbf\xfb\xda\x57\xb7\x35\x5e\x80\x7c\x28\xbe\xa9\x1f\xe5\x2c\xfb\x90\xb9\x72\x80\x8f\x0d\xa5\xff\x11\x99\x2f\x62\xa9\xc7\x7d\x64\x7c\xfd\x1d\x2b\x5a\x27\xa3\x74\xbb\x1c\xf2\x25\x52\x2b\xc2\x6f\xb9\xfa\xb3\xbf\xbf\xf2\x6a\xa8\xfb\xc4\x82\x4e\xfa\xac\x76\xef\xfd\x59\xa2\x79\x94\x24\x86\x20\x00\x00\x00\x00\x00\x03\xfe\x82\xba\x4a\x58\x52\x26\xc7\xc1\xd2\xe4\x55\xce\xbf\x27\xf8\xea\xbe\xcc\x1d\xc8\x40\x93\x5a\xb7\xe4\x79\x8e\x01\x34\xaa\x14\x46\x83\xb8\xfb\xfb\x44\x76\xa2\x1d\xf1\xe5\xba\x4a\xda\xb6\xc2\x44\xed\xc7\x20\x61\x1d\x3a\x2d\xd5\xb0\x3f\x68\xca\x40\x68\x39\xfc\x1b\x07\xcf\xab\xb6\x1e\x53\xa8\xb2\x58\xbd\x8a\xff\x0f\xa1\xa6\xb5\xf7\x46\xca\x04\x2e\x64\xcb\xe2\x22\x44\xbe\x29\xb3\x3e\x62\x4e\xe1\x99\x7f\x42\xa0\x1c\x0b\x33\xba\xb0\x7e\x1e\xc7\xd7\x96\x4b\x4b\xea\x8b\x3f\xc8\x45\x7e\x63\x3f\x3d\xcc\xc4\xff\xaa\x89\xe4\x0a\x9e\xbf\xe2\x96\xea\xc2\x86\x20\xbc\x73\x01\x04\xfd\x35\x6f\xe8\x5c\xb2\xdf\xfe\xd1\x11\x4b\x3e\x29\xea\x90\xae\x6c\xb3\xcc\xa4\x86\x97\x07\x0d\x19\x8b\xdc\xc5\x2f\xc4\x48\x0c\x40\x00\x00\x00\x00\x00\x05\xdd\xbe\x8d\xea\x9c\xef\x4f\xec\x22\xd1\xd7\x50\xe0\x87\xc3\xb0\x18\x2b\x48\x79\xe6\x8f\xf3\x7f\x90\x13\x22\x08\x22\xf1\xee\x3d\x97\x1b\x06\x46\x87\x3a\x51\x3c\xd8\x8a\xfc\x58\x75\xcf\x7f\xde\x39\x72\x22\x4e\xfb\x3e\xfc\x38\xed\x1e\xb1\x79\x32\xe7\xfd\x72\x72\xce\x5c\x52\xd1\xff\x55\x63\xc3\x66\x8b\x27\x4c\x94\x90\xf0\xd5\x16\x54\x28\x79\xec\x1f\x43\xd6\xdf\xba\x4f\x75\x6a\x92\xd4\xee\x4d\x7f\xff\xf7\x22\xca\x7a\x6d\x91\x25\xff\x88\x8d\xfc\x66\x6a\x60\xd9\x2a\x7c\x7f\x82\xea\x2b\x02\x81\x09\xcb\x50\xb5\x2e\xe3\x6b\xe2\x18\x28\x5d\x1e\xff\x29\xe0\xc3\xe5\x63\x91\x4f\x31\xb0\xcf\xfa\x11\xa7\xf7\x5b\x17\xfa\x78\xa8\x7d\xe1\x49\x1d\xdb\xe3\xd5\x77\x0d\x08\xeb\xba\xd8\x47\xd5\x1b\xee\x43\xd0\x39\x29\x25\x04\x2e\x60\xdd\xe0"},
{8,2,740,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x59\x11\xb7\x4a\xff\x4a\xb7\x77\xe1\x3f\xe2\x99\x1b\x5d\xdd\x1e\xcf\x74\xcf\xc8\xeb\x79\xf6\x20\x87\x86\xe6\x60\xfb\x1a\x66\x1a\x03\xbc\xf8\x2b\x1b\xd8\x5b\xdf\xf3\xfa\xab\x2f\x9f\x3e\xa5\xdc\x83\xed\x83\x33\x8e\xad\x83\x11\xc0\x16\x6e\x46\x4f\xbe\x9f\x04\x06\xec\x7b\xd2\x42\xdf\x2a\xca\x34\x06\x7c\xf7\x8d\xa7\x2a\x32\xf9\x99\xc5\xf6\xcc\xfc\x3c\x76\xec\x3c\xcc\xf9\x69\x15\x7b\x92\x1f\x43\x7d\xb4\xfc\x4e\xe6\xda\xef\x1b\x0d\x72\xae\x8d\xfe\xf8\x67\xcd\x31\x84\xb7\x07\xe2\xc9\xa2\x37\x14\x65\xbf\x4a\x41\x21\x03\xe2\x07\x17\xf6\x04\x4e\x8d\x63\x96\x88\x76\x4e\x8d\x28\xff\xa2\x9b\x84\xc3\x81\xac\xd7\x14\xde\x20\x2e\xd5\x74\xc1\x21\x86\xf7\x4e\xc5\x6c\x1a\xa8\x53\x37\xd9\xf1\x42\x9d\xd5\xf0\x91\x18\x80\x00\x00\x00\x00\x00\x08\x3c\x75\x50\x0a\xd2\xff\x79\x33\x3e\x88\x00\xed\x7b\xa8\x2c\xe1\x53\xc8\x2e\xdd\xd7\x89\x5f\x43\xd4\xfc\xed\x9d\x4d\xf9\xba\xed\x5d\xf3\xa9\x16\xf1\xb8\x21\xbb\x64\x25\xa5\x4f\xe1\xa3\x4b\x2e\xa8\x62\x8f\x79\x8a\x24\xc5\xc7\x02\x3e\x2b\xe0\x11\x19\xd1\xa0\x8b\xf6\x62\xa2\xf5\xff\xc1\x5a\xfa\xe4\xaa\x7d\x3d\xec\x2b\x8b\xf7\xb6\x7e\xb6\xb8\xb6\x9c\xdc\xb0\xae\xb3\xcf\x08\x47\x05\xe7\xcf\x6a\x0c\xf4\x38\xd4\xfd\xe8\x0e\xaf\x8d\xfc\xdb\xa3\x04\x5c\x37\xca\xb0\xe2\xb7\xbd\xc5\x2b\x0a\xc0\xab\x8d\xab\x41\x77\x2a\xd1\x80\x30\x73\x38\xe4\x80\x84\xf3\x58\x05\xc6\x9d\x51\xc4\x9c\xb0\x17\x42\x23\x47\xa6\x3c\x65\xfd\xe9\xce\x2e\x25\x58\xc8\xe6\x93\xa4\xeb\x6d\x73\xe5\x06\x78\x92\x18\x80\x00\x00\x00\x00\x00\x0f\xb4\x24\x2c\xa3\x79\x7a\xdf\x99\x6a\xa9\xe5\x2a\xeb\x63\xa0\xe0\xbb\x21\x7d\x45\x44\x1e\xec\x05\x68\x29\xa4\x7b\xd5\x30\x81\x8f\xe2\xaa\x41\xb4\xd3\x32\x98\x4e\xf5\xfe\x87\xc7\x43\xca\x16\xa4\x2e\x97\x65\xe2\x78\xcc\xca\x37\x89\x31\x1a\x19\x92\xe6\x8d\x53\xa5\xf6\x1b\xd0\xe7\x65\x7c\x1e\x3f\xec\x82\x88\xfd\x9c\x9b\xe3\x8c\x46\xda\x7f\x03\x59\xff\xdf\xde\x58\x4c\x84\x6a\x1a\x6c\xc4\xde\x6e\x92\x90\x3d\x79\xc2\x25\xaf\x0e\xed\x9c\xa7\x78\xd8\x79\x9d\x14\x36\xd5\x21\x91\xf2\x32\x46\x72\xe9\xcf\x7f\xc1\xfe\x78\xde\xaa\xd3\xc7\xfc\xac\x9d\xef\x1b\xbf\x5f\xeb\x29\xe7\xc6\x40\x53\x3f\x75\x9f\x01\xee\x41\xb0\xb6\x4a\xaf\x6d\x41\x4d\x98\xfe\xa5\xa8\xe0\x04\x3a\x87\x7d\x89\x40\x45\xea\xc5\x2d\x51\x20\x31\x00\x00\x00\x00\x00\x00\x1f\xfc\x69\x0e\x52\xbe\x45\xa4\xc1\x1d\x27\x1d\x29\x97\xb0\xa3\xa6\xdb\x48\x7c\x01\x3b\x1f\x10\x90\x6f\xde\x6c\x57\xcb\x98\x57\x69\x90\x8e\x0c\xe8\x0b\x54\xe9\xdf\x03\x74\xc2\xed\xee\x28\x4f\x0c\xc3\x72\x29\x1b\xfc\xd9\x42\x29\xba\x90\x9d\x4e\xbb\x6f\xe4\x71\x89\xf3\xb4\xdd\x41\x9c\x36\xa0\x3f\x92\x57\x0e\x98\x0c\x87\x5c\x21\x8c\xa1\x7c\xd7\xf4\x3c\x9e\xd0\xd7\x2e\x89\x4d\xb0\xa5\x40\x21\xc4\x4f\x86\x1e\x17\xa9\x70\xe9\xf2\x94\x37\x5f\xc7\xeb\x7a\x7f\x7f\x2f\xc0\x57\xcf\x07\xd3\x8a\xd7\x40\x78\x29\xe4\x31\xa8\xf8\x58\xa0\x3f\xd8\xf9\x1d\x1a\x00\x6e\x76\x80\xce\x45\x5f\xd0\x38\xef\x2b\x4d\x39\x56\x35\x78\x35\x56\x41\xec\x21\x6f\x35\xc0\xfd\x05\xb4\x03\x9c\x01\xc6\x3e\x79\x14\x05\xbf\x81\x29\xb3\x21\xf3\x36\x72\x07\x25\x24\xa0\x85\xcc\x1b\xbc"},
{8,3,777,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xf6\x85\x3d\x9b\xef\x2e\x47\xfd\x99\x57\x44\xbd\x00\x4c\x12\x25\x1d\x52\x09\xd6\xcb\x4b\xdd\xd5\x74\xaa\x0a\x2f\x86\x67\xf4\x77\x94\x83\x94\x43\x6e\xaf\xfe\x7d\xa1\x96\xb2\x68\x1d\x15\xd5\x4a\xe5\xf0\xf7\x0b\x71\x2e\xd9\x8f\x09\xc9\x4b\x4d\xb4\x00\xf7\xb6\xa5\x85\x5e\xf1\x19\x3f\x56\xfe\x21\xe4\xd9\x53\xaa\x3d\x23\xa3\xdd\xc4\x88\x6e\xa5\x31\x62\xef\x6d\xc0\xa2\x3f\x24\x64\x44\xa7\x7f\x7d\xd6\x7e\xf6\x8e\x84\x90\xf7\xa7\xef\x39\x6b\x10\x75\xf2\x9c\x87\xbc\x53\x4b\x56\x38\x59\x13\xda\x4f\xaf\xeb\xf1\x22\x11\x75\x75\xdd\x45\xe1\x8c\x3b\xaf\x50\xa1\x10\x37\x64\xb7\x18\x1c\x10\x84\x86\x00\xde\x74\x85\xfb\x49\x6a\x85\xdb\x7d\xab\x86\x5b\x92\xfc\x8c\x70\x45\x70\xa7\x50\x55\x8e\x98\xa9\x60\x3b\x48\xf3\xfa\xaa\xb1\xc7\x50\x46\xbd\x99\x4b\xbb\xaf\xd3\x5d\x83\x0f\x57\xfa\xc0\xc8\xbc\x7a\x38\x21\x09\x11\x88\x00\x00\x00\x00\x00\x00\xf4\xc4\xfb\x77\xd8\x00\x5e\x66\xd8\x87\x5c\xf2\x4d\x3a\xbe\x4d\xc1\xeb\x4f\x9c\xc8\xbd\x2f\xbc\x5f\x8c\x0e\x52\xfa\x37\x9d\xfb\x9e\xe2\xa1\x76\xbd\xd8\x1a\x38\x70\xf7\x22\xfa\x9a\xee\x25\x59\x33\x24\xa4\xce\x7f\x10\xef\x3f\x35\x87\xbe\x2d\x96\x91\x08\xfe\x90\xed\xb5\xfd\x1f\xa6\x09\x79\x26\x58\xb6\x56\xd4\x30\x6f\xe7\x5a\x3f\xe3\x59\xce\xf3\x07\x56\xc3\x24\xba\x13\xd2\x53\x82\x43\x9f\xae\xb9\xff\x43\x0d\x57\x41\x68\x8d\x93\x77\x3c\xb3\x8c\x0d\x04\x00\xe6\x0c\x7a\x1c\x26\x4f\x72\xd7\xe1\xf0\x91\x48\xfb\xf2\xd4\xb7\x00\x02\xa3\x4e\xcf\xda\xe2\x48\x06\xd5\xd9\x9d\x19\xa7\x1a\x95\xde\x43\x95\x81\xf1\x42\x01\xcb\xf7\xd4\x04\x53\xee\xc8\x47\x0f\x7f\x6c\xad\x57\xbe\x6e\xd5\x1e\x07\xab\x00\x07\x58\x00\x8b\x1f\xb3\x20\x1f\xb4\x10\x44\x90\xc4\x00\x00\x00\x00\x00\x00\x7d\x66\x49\x57\x84\x83\xcf\x3a\xb5\xb1\xed\xf1\xf0\x73\x37\xdf\x77\x7b\xe1\x4d\x0e\xf7\xfe\xe8\x78\x63\x56\x69\xf6\x98\x8c\x83\xb7\x92\x44\x76\xe1\xc7\xfd\x73\xfc\x5e\x9c\x38\x1d\x0f\x0f\x31\x4d\x15\x07\xf3\xa1\x88\x64\xa5\xef\x3a\x4b\xec\x22\x13\x0e\x3a\xef\xfc\x87\x18\xc0\x18\x47\x02\x1f\x3f\x16\x7f\x2d\x6b\xf8\xc4\xb6\xb3\x64\x5e\xcf\x2b\x2a\xbb\x4a\xbe\x89\x0e\xb0\x6e\x9c\x8d\xd2\x98\xe9\x96\x4d\xdf\xe3\xef\x4d\xed\x43\xe7\xfa\x5f\xb7\x8c\xd2\xdf\xb8\xab\x80\x60\x3b\x7b\x45\x19\x98\x76\x63\xc5\x4d\x40\xb7\x5a\x84\xb6\x99\x2d\xfb\xbe\xd3\x35\x75\xe2\x39\x55\xbe\xef\x47\xe3\xea\x92\x65\xb8\x5e\x69\x0a\x16\xbc\xf1\xbe\x7d\xd7\xc5\xa9\x46\x04\x24\x06\x20\x00\x00\x00\x00\x00\x03\xf1\x20\xbf\x35\x84\x2a\x93\x9c\x50\xc2\x91\xf5\xb1\xe6\x6c\x74\x74\xd9\xf7\x82\xd4\xc7\xef\x2b\xf3\x21\xb5\xb2\x4f\x3f\xb8\xb4\xab\xa0\x94\x05\x0b\x28\x5c\x35\xff\xf4\xff\x76\xd0\x20\x60\xe6\xfe\xa4\x76\xd8\xc0\x46\xf5\xc4\x07\x8a\xa9\x1e\x56\x9e\x14\x7d\xa1\xb7\x26\x5f\xdb\x5c\xd8\xbf\xe1\xe5\x66\x20\x1b\xd4\xdf\x1b\xae\x9f\x1e\x1f\x30\xb7\x4e\x31\xca\x3f\x36\x0f\x7a\x0c\x93\xe8\x75\x6c\x00\x40\x5b\x05\x72\x0e\xdb\x44\x7f\x7f\x9c\x74\x47\x8a\xf6\x87\xc0\xb6\x5e\x42\x0c\x64\xf1\xb8\x1d\xe2\xbe\x08\xda\xf1\x46\xde\x92\xd4\x6b\xda\x7d\x02\x30\xd2\x59\x12\x43\xb2\xc1\x44\xa2\x02\xd4\xdd\x00\xd4\x48\x3d\xd6\x8f\xa6\x9a\x05\x03\xfe\x60\xeb\x91\x45\x6a\x42\x39\xac\x50\x55\xb3\xf9\xaf\x1b\xec\x59\xb8\x10\x62\x95\x74\xb5\x04\x91\x05\xd4\x21\xd0\xb9\x46\x9c\xe0\x85\xcc\x1b\xbc\x00"},
{8,4,759,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x57\xf6\x7f\xff\xe3\xbd\xb9\xf8\x4f\x1d\x92\x7a\x12\xb6\x8b\xbb\x36\x53\xe8\x2b\xca\x49\x4d\x09\xec\x88\xff\xa6\xad\x3e\x74\x2c\x2e\x77\x14\x7b\x3c\x47\x0d\x82\x0b\xda\xbc\x06\x3d\x99\x98\x46\xed\x9c\x8d\x4c\xfd\xd8\x80\x0d\xed\x79\xf4\xaf\x59\x99\x78\xad\x8a\x00\x03\xb1\x6b\x85\xa5\xaf\x51\xcf\x78\x06\x34\x09\x43\xb3\x16\x5d\x84\x39\xb0\xf1\x9d\x90\xc2\xf0\x2d\xa6\x9f\x0e\x02\x06\x7d\xff\x71\xfc\xf8\xf4\xe9\x9d\x31\x24\x96\xe1\xee\xf7\xe7\xe6\x66\x93\x97\x28\x5b\x7c\x01\x57\x55\x70\x88\xfd\x94\x6d\x18\xa3\xea\x8e\x8f\x32\x73\x62\x46\x23\xff\x22\x47\x83\x7f\x4f\xf9\xf1\xf9\xa7\x6a\xfa\x39\x7b\x81\x7f\xf8\xaf\xde\x1e\x29\x4d\x73\x14\x20\x1f\x71\x53\x00\xbf\xfc\x8c\x28\x29\x28\x6a\x9c\xd9\x45\xf2\xac\x48\x8c\x40\x00\x00\x00\x00\x00\x07\xcf\xa2\x51\x55\x73\xad\x1a\x0d\x8a\xc3\xe4\x0c\xcf\x35\xc7\xe8\xa8\x9b\x8b\x98\x93\xfe\xfd\x2d\x1d\x78\x44\xd6\x2c\x14\x65\x86\x4e\x83\x58\x76\x3c\xf1\x53\xc0\xf6\x85\x02\x7e\x5b\xfd\x2d\x00\xe6\x74\xf8\xec\x1d\xb1\x63\xb0\x7f\xea\x77\xff\x70\x96\x26\xe0\x08\x6d\xf5\x6a\x32\xf1\xb4\xdf\xfc\xea\x27\xb8\x35\x1e\xbd\xa0\xf6\xdf\xf4\xd4\x49\x00\xec\x5f\x17\x0a\x52\x5e\x49\x2c\x68\xbe\xf2\xc3\xe7\xe3\xb9\x54\x00\xd4\xa8\x9f\xf4\x7b\x59\x0d\xa8\x40\x58\x76\x96\x57\xd5\x03\x10\x63\xff\xbf\xfb\xda\x57\xb7\x35\x5e\x80\x7c\x28\xbe\xa9\x1f\xe5\x2c\xfb\x90\xb9\x72\x80\x8f\x0d\xa5\xff\x11\x99\x2f\x62\xa9\xc7\x7d\x64\x7c\xfd\x1d\x2b\x5a\x27\xa3\x74\xbb\x1c\xf2\x25\x52\x2b\xc2\x6f\xb9\xfa\xb3\xbf\xbf\xf2\x6a\xa8\xfb\xc4\x82\x4e\xfa\xac\x76\xef\xfd\x59\xa2\x79\x94\x24\x86\x20\x00\x00\x00\x00\x00\x03\xfe\x82\xba\x4a\x58\x52\x26\xc7\xc1\xd2\xe4\x55\xce\xbf\x27\xf8\xea\xbe\xcc\x1d\xc8\x40\x93\x5a\xb7\xe4\x79\x8e\x01\x34\xaa\x14\x46\x83\xb8\xfb\xfb\x44\x76\xa2\x1d\xf1\xe5\xba\x4a\xda\xb6\xc2\x44\xed\xc7\x20\x61\x1d\x3a\x2d\xd5\xb0\x3f\x68\xca\x40\x68\x39\xfc\x1b\x07\xcf\xab\xb6\x1e\x53\xa8\xb2\x58\xbd\x8a\xff\x0f\xa1\xa6\xb5\xf7\x46\xca\x04\x2e\x64\xcb\xe2\x22\x44\xbe\x29\xb3\x3e\x62\x4e\xe1\x99\x7f\x42\xa0\x1c\x0b\x33\xba\xb0\x7e\x1e\xc7\xd7\x96\x4b\x4b\xea\x8b\x3f\xc8\x45\x7e\x63\x3f\x3d\xcc\xc4\xff\xaa\x89\xe4\x0a\x9e\xbf\xe2\x96\xea\xc2\x86\x20\xbc\x73\x01\x04\xfd\x35\x6f\xe8\x5c\xb2\xdf\xfe\xd1\x11\x4b\x3e\x29\xea\x90\xae\x6c\xb3\xcc\xa4\x86\x97\x07\x0d\x19\x8b\xdc\xc5\x2f\xc4\x48\x0c\x40\x00\x00\x00\x00\x00\x05\xdd\xbe\x8d\xea\x9c\xef\x4f\xec\x22\xd1\xd7\x50\xe0\x87\xc3\xb0\x18\x2b\x48\x79\xe6\x8f\xf3\x7f\x90\x13\x22\x08\x22\xf1\xee\x3d\x97\x1b\x06\x46\x87\x3a\x51\x3c\xd8\x8a\xfc\x58\x75\xcf\x7f\xde\x39\x72\x22\x4e\xfb\x3e\xfc\x38\xed\x1e\xb1\x79\x32\xe7\xfd\x72\x72\xce\x5c\x52\xd1\xff\x55\x63\xc3\x66\x8b\x27\x4c\x94\x90\xf0\xd5\x16\x54\x28\x79\xec\x1f\x43\xd6\xdf\xba\x4f\x75\x6a\x92\xd4\xee\x4d\x7f\xff\xf7\x22\xca\x7a\x6d\x91\x25\xff\x88\x8d\xfc\x66\x6a\x60\xd9\x2a\x7c\x7f\x82\xea\x2b\x02\x81\x09\xcb\x50\xb5\x2e\xe3\x6b\xe2\x18\x28\x5d\x1e\xff\x29\xe0\xc3\xe5\x63\x91\x4f\x31\xb0\xcf\xfa\x11\xa7\xf7\x5b\x17\xfa\x78\xa8\x7d\xe1\x49\x1d\xdb\xe3\xd5\x77\x0d\x08\xeb\xba\xd8\x47\xd5\x1b\xee\x43\xd0\x39\x29\x25\x04\x2e\x60\xdd\xe0"},
{8,5,740,"\x12\x03\x10\x00\x00\x00\x00\x00\x01\xff\x59\x11\xb7\x4a\xff\x4a\xb7\x77\xe1\x3f\xe2\x99\x1b\x5d\xdd\x1e\xcf\x74\xcf\xc8\xeb\x79\xf6\x20\x87\x86\xe6\x60\xfb\x1a\x66\x1a\x03\xbc\xf8\x2b\x1b\xd8\x5b\xdf\xf3\xfa\xab\x2f\x9f\x3e\xa5\xdc\x83\xed\x83\x33\x8e\xad\x83\x11\xc0\x16\x6e\x46\x4f\xbe\x9f\x04\x06\xec\x7b\xd2\x42\xdf\x2a\xca\x34\x06\x7c\xf7\x8d\xa7\x2a\x32\xf9\x99\xc5\xf6\xcc\xfc\x3c\x76\xec\x3c\xcc\xf9\x69\x15\x7b\x92\x1f\x43\x7d\xb4\xfc\x4e\xe6\xda\xef\x1b\x0d\x72\xae\x8d\xfe\xf8\x67\xcd\x31\x84\xb7\x07\xe2\xc9\xa2\x37\x14\x65\xbf\x4a\x41\x21\x03\xe2\x07\x17\xf6\x04\x4e\x8d\x63\x96\x88\x76\x4e\x8d\x28\xff\xa2\x9b\x84\xc3\x81\xac\xd7\x14\xde\x20\x2e\xd5\x74\xc1\x21\x86\xf7\x4e\xc5\x6c\x1a\xa8\x53\x37\xd9\xf1\x42\x9d\xd5\xf0\x91\x18\x80\x00\x00\x00\x00\x00\x08\x3c\x75\x50\x0a\xd2\xff\x79\x33\x3e\x88\x00\xed\x7b\xa8\x2c\xe1\x53\xc8\x2e\xdd\xd7\x89\x5f\x43\xd4\xfc\xed\x9d\x4d\xf9\xba\xed\x5d\xf3\xa9\x16\xf1\xb8\x21\xbb\x64\x25\xa5\x4f\xe1\xa3\x4b\x2e\xa8\x62\x8f\x79\x8a\x24\xc5\xc7\x02\x3e\x2b\xe0\x11\x19\xd1\xa0\x8b\xf6\x62\xa2\xf5\xff\xc1\x5a\xfa\xe4\xaa\x7d\x3d\xec\x2b\x8b\xf7\xb6\x7e\xb6\xb8\xb6\x9c\xdc\xb0\xae\xb3\xcf\x08\x47\x05\xe7\xcf\x6a\x0c\xf4\x38\xd4\xfd\xe8\x0e\xaf\x8d\xfc\xdb\xa3\x04\x5c\x37\xca\xb0\xe2\xb7\xbd\xc5\x2b\x0a\xc0\xab\x8d\xab\x41\x77\x2a\xd1\x80\x30\x73\x38\xe4\x80\x84\xf3\x58\x05\xc6\x9d\x51\xc4\x9c\xb0\x17\x42\x23\x47\xa6\x3c\x65\xfd\xe9\xce\x2e\x25\x58\xc8\xe6\x93\xa4\xeb\x6d\x73\xe5\x06\x78\x92\x18\x80\x00\x00\x00\x00\x00\x0f\xb4\x24\x2c\xa3\x79\x7a\xdf\x99\x6a\xa9\xe5\x2a\xeb\x63\xa0\xe0\xbb\x21\x7d\x45\x44\x1e\xec\x05\x68\x29\xa4\x7b\xd5\x30\x81\x8f\xe2\xaa\x41\xb4\xd3\x32\x98\x4e\xf5\xfe\x87\xc7\x43\xca\x16\xa4\x2e\x97\x65\xe2\x78\xcc\xca\x37\x89\x31\x1a\x19\x92\xe6\x8d\x53\xa5\xf6\x1b\xd0\xe7\x65\x7c\x1e\x3f\xec\x82\x88\xfd\x9c\x9b\xe3\x8c\x46\xda\x7f\x03\x59\xff\xdf\xde\x58\x4c\x84\x6a\x1a\x6c\xc4\xde\x6e\x92\x90\x3d\x79\xc2\x25\xaf\x0e\xed\x9c\xa7\x78\xd8\x79\x9d\x14\x36\xd5\x21\x91\xf2\x32\x46\x72\xe9\xcf\x7f\xc1\xfe\x78\xde\xaa\xd3\xc7\xfc\xac\x9d\xef\x1b\xbf\x5f\xeb\x29\xe7\xc6\x40\x53\x3f\x75\x9f\x01\xee\x41\xb0\xb6\x4a\xaf\x6d\x41\x4d\x98\xfe\xa5\xa8\xe0\x04\x3a\x87\x7d\x89\x40\x45\xea\xc5\x2d\x51\x20\x31\x00\x00\x00\x00\x00\x00\x1f\xfc\x69\x0e\x52\xbe\x45\xa4\xc1\x1d\x27\x1d\x29\x97\xb0\xa3\xa6\xdb\x48\x7c\x01\x3b\x1f\x10\x90\x6f\xde\x6c\x57\xcb\x98\x57\x69\x90\x8e\x0c\xe8\x0b\x54\xe9\xdf\x03\x74\xc2\xed\xee\x28\x4f\x0c\xc3\x72\x29\x1b\xfc\xd9\x42\x29\xba\x90\x9d\x4e\xbb\x6f\xe4\x71\x89\xf3\xb4\xdd\x41\x9c\x36\xa0\x3f\x92\x57\x0e\x98\x0c\x87\x5c\x21\x8c\xa1\x7c\xd7\xf4\x3c\x9e\xd0\xd7\x2e\x89\x4d\xb0\xa5\x40\x21\xc4\x4f\x86\x1e\x17\xa9\x70\xe9\xf2\x94\x37\x5f\xc7\xeb\x7a\x7f\x7f\x2f\xc0\x57\xcf\x07\xd3\x8a\xd7\x40\x78\x29\xe4\x31\xa8\xf8\x58\xa0\x3f\xd8\xf9\x1d\x1a\x00\x6e\x76\x80\xce\x45\x5f\xd0\x38\xef\x2b\x4d\x39\x56\x35\x78\x35\x56\x41\xec\x21\x6f\x35\xc0\xfd\x05\xb4\x03\x9c\x01\xc6\x3e\x79\x14\x05\xbf\x81\x29\xb3\x21\xf3\x36\x72\x07\x25\x24\xa0\x85\xcc\x1b\xbc"},
